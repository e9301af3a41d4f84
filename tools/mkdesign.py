# assembles DESIGN.md from text + per-module assumptions
import ast, json, re, sys
sys.path[:0] = ['/repo', '/verif']
import importlib, contracts.common as common
for k in range(1, 26): importlib.import_module(f'contracts.c{k:02d}')
counts = {}
for c in common.ALL: counts[c.prop] = counts.get(c.prop, 0) + 1
V='/verif'
per = {
'C01': ('`Machine.evaluate`, one contract per instruction (68): from a machine of arbitrary stack depth whose next instruction is I and whose operands are any two bit vectors, evaluation reaches the following instruction with exactly the operands replaced by the value of an independent bit-vector definition of I, or traps exactly when the specification says. Helpers (`ValInst.*`, `arith.*`) are inlined, so they are verified through every caller.',
        'unbounded in operands and stack depth; division through lemmas (`proofs/Div.lean`)'),
'C02': ('`Machine.evaluate`, one contract per SIMD integer instruction (162), compared lane by lane with a bit-vector definition; no trap on any operand.', 'unbounded'),
'C03': ('`Machine.evaluate`, one contract per float instruction, scalar and vector (82), against the SMT FloatingPoint theory with the NaN patterns WebAssembly permits; sign-bit operations against bit masks.', 'unbounded; double rounding lemma proved in `proofs/DoubleRounding.v`'),
'C04': ('`Machine.evaluate` for truncations, conversions, promotion, demotion, reinterpretation, constants (42), against FloatingPoint theory / bit identity; trap exactly outside of the range.', 'unbounded'),
'C05': ('`Machine.evaluate` with a memory of any page count and unknown contents (45): address + offset without wrap-around, width, extension, little endian, trap with nothing changed, a store leaves each other byte (skolem index).', 'unbounded'),
'C06': ('memory.copy/fill/init, data.drop, memory.size/grow on memories of any size (8): the resulting memory is described at a skolem index; traps write nothing.', 'unbounded'),
'C07': ('table instructions on tables of any length with any maximum (15): frame at a skolem index; old elements may be shared with the stack and must not be modified in place.', 'unbounded (tables below 2^31 elements)'),
'C08': ('local/global/drop/select (11) with any number of locals, globals and store entries. Value objects are shared between stack, locals and globals: replaced values must not be modified in place.', 'unbounded'),
'C09': ('block/loop/if/br/br_if/br_table (17): code is entered by the interpreter itself, then the stacks in between are replaced by unknown values and labels; a branch of any depth must reach the designated instruction with the label arity on top of the recorded height.', 'unbounded depth and heights; br_table for any number of targets'),
'C10': ('call, call_indirect, return, function-level branches, host calls, call depth (26). Callee signature, arguments, results and local declarations are sequences of unknown length; the loop over local declarations is summarised by a fold.', 'unbounded; one stand-in (up to 3 local declarations) exists only to find concrete inputs'),
'C11': ('`leb128.u/i.encode`, `decode_reader`, `decode`: value denoted by the 7-bit groups, round trip, bytes left unread, rejection of nothing well formed.', 'all integers of at most 64 bits: loops unroll completely (10 groups), which is exhaustive, not a bound on what the format admits'),
'C12': ('`Inst.from_reader`, `Expr.from_reader`, `Bype.from_reader` (519): the input is a stream of tokens (raw bytes, LEB128 numbers in any admissible encoding, nested expressions of any length) followed by arbitrary bytes; result, consumption and rejection are postconditions. Nested bodies use this same contract (induction on the encoding).', 'unbounded number of instructions, immediates and br_table labels'),
'C13': ('`from_reader` of every description class and `ModuleDesc.from_reader` (59): vectors of any length by loop contracts over the token stream; names any UTF-8; custom sections anywhere.', 'unbounded vectors; section combinations: all, each alone, each left out'),
'C14': ('`Machine.instance`/import matching (21): function, table, memory, global imports with any types, limits and current sizes; rejection happens before anything runs or is allocated.', 'unbounded; signatures compared through `ValType.__eq__`; two contracts bound the signature length (labelled bounded)'),
'C15': ('`Machine.instance`, `Machine.allocate`, `Runtime.instance` (25): module descriptions with index spaces of unknown length, segments of every kind, start function, exports.', 'index spaces unbounded; active segments up to 4 per module (labelled bounded)'),
'C16': ('`ValInst.from_all/into_all`, `Runtime.invocate`, `Machine.evaluate_call` for host functions (61): lists of arguments of unknown length and every type.', 'unbounded'),
'C17': ('`Runtime.invocate`, `Runtime.instance`, `Machine.invocate` (24): whatever evaluation leaves on the stacks and with whatever exception it ends, the stacks are empty afterwards and nothing else of the runtime changed; a clean end returns exactly the results.', 'unbounded residue; three scenario contracts (trap two calls deep, then a call) are labelled bounded'),
'C18': ('`MemInst.get*/put*` for any address, size and value (integers of 66 bits), then every `Preview1` call over an arbitrary memory, descriptor table and host (69): length kept, buffers of successful calls inside, what is written stays in the buffers.', 'calls: unbounded pointers; loops over iovecs by loop contracts; poll_oneoff one subscription, readdir up to 5 entries (labelled bounded)'),
'C19': ('every `Preview1` call on any descriptor table (70): not open -> BADF, right missing -> error, no host operation, memory and table as before.', 'unbounded table, rights, pointers'),
'C20': ('the path calls and `help_escp` (34). Per call: every host operation gets a path of the guest, unmodified, relative to the descriptor it came with, and only if `help_escp` let it pass (any text, through the contract of `help_escp`); `help_escp` itself lets a text pass only if it stays below the directory.', 'calls: unbounded texts; `help_escp` and the end-to-end stand-ins: 3280 texts over `.`, `/`, `a` and 13 texts for each call (labelled bounded)'),
'C21': ('every call (45): the rights of each descriptor afterwards as a function of the rights before (skolem descriptor).', 'unbounded table and rights'),
'C22': ('args_get/environ_get and the size calls, for any number of entries: the prefix sums of the entry sizes are the loop invariant, and each step is shown to write its pointer, entry and end and to leave earlier ones alone; the same up to 2 entries as end-to-end contracts, which also stand in.', 'unbounded lists of unbounded entries; the end-to-end contracts 2 entries (labelled bounded)'),
'C23': ('fd_read/pread/write/pwrite, sock_recv/send for any number of buffers: the prefix sums of the buffer lengths are the loop invariant; each step is shown to transfer exactly its buffer at its place, a step that ends the transfer to have been short; the host answers any count. 0 and 1 buffers also end to end; two buffers when the loop has another shape.', 'unbounded lists of unbounded buffers; the end-to-end contracts 0 to 2 buffers (labelled bounded)'),
'C24': ('fd_close, fd_renumber, path_open, sock_accept and, for every other call, the frame of the descriptor table (47).', 'unbounded table'),
'C25': ('record layouts of fdstat, filestat, prestat, times, readlink, readdir, random, clock, poll and the table of exported names and signatures (21).', 'pointers and host answers unbounded; readdir 4 listings, poll one subscription (labelled bounded)'),
}
head = '''# Design

## What is verified, and how

pywasm is plain Python; no deductive verifier for Python is installed, so `/verif/pydv` is one: a verification-condition generator
that reads the abstract syntax of **the current source in /repo on every run** (`inspect`/`ast` on the imported modules, nothing is
copied, translated by hand or dropped), executes it symbolically over an explicit heap, and hands every obligation to z3 (cvc5 as
second back end).  A contract (`contracts/cNN.py`) is a precondition (an arbitrary state built from named unknowns), one call of the
real function, and postconditions, frame conditions and loop contracts.

* Integers are Python's: bit vectors with an interval, widened so no operation wraps.  Lists and byte arrays may have unknown length
  and contents; universal claims use a skolem index.  Floats are a bit pattern with its FloatingPoint term.
* `Machine.evaluate` is verified one instruction at a time: the instruction list is `[I, stop]`, where reading `stop.opcode` ends the
  run.  Stack, labels and frames below are unknown sequences of unknown length, so a proved step holds in every state; a program's
  run is a sequence of such steps.
* Calls: a helper that has its own proved contract may be used by that contract (LEB128 in C12/C13, `Inst.from_reader` in C13,
  `MemInst` accessors in C18 ff., import matching, ...); every other helper is inlined, so extracting or merging helpers changes nothing.
* Loops are unrolled when the number of rounds is fixed by the contract; otherwise `pydv/loops.py` summarises them: map/filter/fold
  shapes, comprehension-like appends, stream readers, and loops whose state is havocked up to an inferred invariant, each of which is
  proved inductive (base and step obligations) on the current source.  A loop of another shape makes the contract undecided.
* The same contract text also runs concretely on CPython, on the real functions, with drawn or given inputs.  This is used to (1) replay
  the verifier's counterexamples, (2) search for an input when the verifier refutes or cannot decide, (3) cross-check pydv: each
  contract is sampled before it is proved; a disagreement is a violation with an input.
* Verdict: a contract is **proved** only if every path's every obligation is discharged, every `cover` label is reached by a
  feasible path (no vacuous precondition), and sampling agrees.  Otherwise: a replayed failing input -> VIOLATION; no such input ->
  VIOLATION ... no-failing-input-found (the replay file names the obligation and has the verifier's output).

Trusted: pydv's semantics of Python and its models of built-ins (`pydv/models.py`), z3/cvc5, CPython on x86-64 (NaN patterns), and the
assumptions listed per property.  Host operations in `wasi.py` (os, fcntl, select, time, socket, random, pipes) are external: each is
recorded and answers anything its documentation allows or fails with OSError; nothing real is touched, in concrete runs either.

`python3-vt -m pydv.check Cxx [-v] [--only TEXT]` runs a property; `python3-vt -m pydv.replay FILE` replays a violation.  Environment:
PYDV_REPO (another tree), PYDV_EVID (another evidence directory), PYDV_JOBS, PYDV_FIRST (stop at the first violation); none is needed.
No hooks are compiled into /repo; the only commits there are `fix:` commits.

`thorough` runs the same proofs with five times the limits, the bounded stand-ins, and several hundred samples of each contract.

## Properties

'''
out=head
for line in open(V+'/properties.jsonl'):
    p=json.loads(line); i=p['id']
    what,bound=per[i]
    n=counts[i]
    what=re.sub(r'(\d+)\)', lambda m: f'{n})' , what, count=0) if False else re.sub(r' \(\d+\)(?=[:.])', f' ({n} contracts)', what, count=1)
    out+=f"### {i} {p['title']}\n\n{what}\n\n*Bounds:* {bound}.\n\n"
    t=ast.parse(open(f'{V}/contracts/{i.lower()}.py').read())
    for n in t.body:
        if isinstance(n,ast.Assign) and getattr(n.targets[0],'id','')=='ASSUMPTIONS':
            a=ast.literal_eval(n.value)
            if a: out+='*Assumptions:*\n'+''.join(f'- {x}\n' for x in a)+'\n'
out+=open('/verif/doc/DESIGN_TAIL.md').read()
catch = json.load(open(V+'/doc/catch.json'))
import os
out+='| change | property | needs | caught by (first obligation that fails, with a concrete input) |\n|---|---|---|---|\n'
for d in sorted(os.listdir(V+'/seeded')):
    m=json.load(open(f'{V}/seeded/{d}/meta.json'))
    out+=f"| {d} | {m['property']} | {m['needs']} | {catch.get(d, 'see the property')} |\n".replace('\n|','\n|')
open(V+'/DESIGN.md','w').write(out)
