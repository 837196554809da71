#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below. Run by hand after editing; not part of any check."""
import importlib
import json
import os
import sys
import textwrap

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORE, ARITH, LEB, WASI, MAIN = ('pywasm/' + n for n in ('core.py', 'arith.py', 'leb128.py', 'wasi.py', '__main__.py'))
INTERP = {'name': 'the instruction dispatch loop of the interpreter', 'where': CORE}
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, level, note, state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, observe=observe, technique=technique, level=level, note=note, state=list(state)))


EX = 'exhaustive enumeration of a bounded space of executions of the real interpreter against a reference model'
BFS = 'explicit-state breadth-first search over operation histories on the real code, compared with a reference model'

prop('C01', 'Integer instructions compute the exact wrap-around results of the standard',
     'Every i32 and i64 numeric instruction, given any operands, returns the value the WebAssembly specification defines '
     '(modulo 2^N wrap-around, signed/unsigned interpretation, shift counts modulo N, sign extension). '
     'Division and remainder trap exactly on a zero divisor or on signed overflow, and never otherwise. '
     'Operands below the ones an instruction consumes, and the other operands of the surrounding code, are left alone.',
     ['inputs'], 'all integer opcodes, all operand pairs of a boundary alphabet (every power of two and its neighbours, '
     'all-ones, alternating patterns, small values)',
     'The runnable tests execute a handful of example programs; they touch few operand patterns and no trap boundary.',
     [CORE, ARITH], [INTERP, {'name': 'fixed-width integer helpers', 'where': ARITH}],
     ['results or trap of an invocation of a one-instruction function'], EX, 'model_checking',
     'Complete for the operand alphabet; values outside it are not executed. Oracle: own integer reference model.')
prop('C02', 'Float arithmetic is correctly rounded IEEE-754 with the standard NaN rules',
     'Every f32 and f64 arithmetic, rounding, min/max, sign and comparison instruction returns the correctly rounded '
     '(nearest, ties to even) IEEE-754 result, including signed zeros, infinities, subnormals and overflow. '
     'NaN results are canonical or arithmetic NaNs as the standard permits, and neg, abs, copysign and plain moves '
     '(loads, stores, locals, calls, reinterpretation) keep every bit they do not define. No float instruction ever traps.',
     ['inputs'], 'all float opcodes, all operand tuples of an alphabet of boundary floats (zeros, subnormals, powers of two '
     'and neighbours, halves, huge, infinities, quiet and signalling NaNs with payloads)',
     'Example programs use ordinary numbers only; signed zeros, NaN payloads, overflow and ties never occur.',
     [CORE, ARITH], [INTERP, {'name': 'float helpers', 'where': ARITH}], ['result bits of an invocation'], EX,
     'model_checking', 'Complete for the operand alphabet; oracle is exact rational arithmetic with one rounding step.')
prop('C03', 'Numeric conversions are exact, correctly rounded, saturating or trapping',
     'Truncations of floats to integers trap exactly on NaN and on values whose truncation does not fit, and otherwise '
     'return the exact integer; the saturating forms never trap and clamp, with NaN giving zero. Integer to float '
     'conversion, promotion and demotion round once to nearest-even, and wrap, extend and reinterpret are exact bit operations.',
     ['inputs'], 'all conversion opcodes over boundary values of source and target types, including all neighbours of the '
     'range limits and all rounding ties between 2^24 and 2^64',
     'The examples convert a few small numbers; limits, ties and double rounding are never reached.',
     [CORE, ARITH], [INTERP, {'name': 'conversion helpers', 'where': ARITH}], ['result bits or trap of an invocation'], EX,
     'model_checking', 'Complete for the operand alphabet.')
prop('C04', 'SIMD integer and bitwise instructions act lane by lane as the standard says',
     'Every v128 integer, bitwise, shuffle, swizzle, splat, lane extract/replace, narrowing, widening, dot, averaging, '
     'saturating, comparison, shift, all-true, any-true and bitmask instruction yields, in every lane, exactly the value the '
     'standard defines for that lane from the operand lanes. No lane influences another beyond that definition and no such '
     'instruction traps.',
     ['inputs'], 'all SIMD integer opcodes, lanes filled from boundary alphabets so that every pair of boundary values meets '
     'in every lane, every immediate lane index, all shift counts around the lane width',
     'One example runs a single SIMD hash; most of the ~200 opcodes are never executed by the runnable tests.',
     [CORE, ARITH], [INTERP], ['result bytes of an invocation'], EX, 'model_checking',
     'Complete for the lane alphabets; oracle is an own per-lane reference model.')
prop('C05', 'SIMD float instructions act lane by lane as the scalar ones',
     'Every f32x4 and f64x2 instruction (arithmetic, comparison, min/max, pseudo min/max, rounding, sign, conversions and '
     'demote/promote) yields in each lane the correctly rounded IEEE-754 result with the NaN rules of the standard, '
     'independently of the other lanes. Sign operations and pseudo min/max preserve bit patterns.',
     ['inputs'], 'all SIMD float opcodes, lanes filled from the boundary float alphabet so that all pairs meet in all lanes',
     'No runnable test executes these instructions at all.', [CORE, ARITH], [INTERP],
     ['result bytes of an invocation'], EX, 'model_checking', 'Complete for the lane alphabets.')
prop('C06', 'Linear memory behaves as a bounded little-endian byte array over any history',
     'Loads, stores, fill, copy, init, data drop, size and grow behave as on a byte array of the current size: each access '
     'touches exactly its bytes, is little-endian, and computes its address without wrapping. An access or bulk operation '
     'that is not entirely in bounds traps and changes no byte, and a growth refused by the maximum changes nothing. '
     'Growth returns the old size and appends zero pages only.',
     ['inputs', 'histories'], 'every access width and lane at all boundary address/offset pairs; all operation histories up '
     'to the depth bound from several limit shapes',
     'Tests use compiled programs that stay well inside memory; bounds, overlap, overflow of address sums, zero-length '
     'operations at the edge and grow/drop histories never occur.',
     [CORE], [{'name': 'bounds assertions of load, store and bulk operations', 'where': CORE}],
     ['results and traps of invocations', 'full memory contents through the exported memory'], BFS, 'model_checking',
     'Exhaustive to the stated depth over the stated alphabet; memories of at most a few pages.',
     [{'name': 'memory bytes and data segments', 'meaning': 'contents and dropped state', 'where': CORE}])
prop('C07', 'Tables, references and indirect calls behave as bounded typed arrays',
     'table get, set, size, grow, fill, copy, init and element drop act on a bounded array of references over any history: '
     'out-of-bounds operations trap and change nothing, a refused growth returns -1 and changes nothing. An indirect call '
     'runs exactly the function held at the index when its type equals the expected type structurally, and traps on an '
     'index out of bounds, a null entry or a type mismatch. Reference instructions distinguish null from non-null.',
     ['inputs', 'histories'], 'all operation histories up to the depth bound over two tables with active, passive and '
     'declarative segments; all index/type combinations of indirect calls',
     'Tests only run compiled programs, which never mutate tables and never take the trapping paths.',
     [CORE], [INTERP, {'name': 'table bounds and signature checks', 'where': CORE}],
     ['results and traps of invocations', 'table contents observed by guest reads and calls'], BFS, 'model_checking',
     'Exhaustive to the stated depth over the stated alphabet.',
     [{'name': 'table entries and element segments', 'meaning': 'contents and dropped state', 'where': CORE}])
prop('C08', 'Structured control flow transfers exactly the right operands to the right place',
     'For any well-typed nesting of blocks, loops, conditionals and branches (br, br_if, br_table, return, falling off the '
     'end), execution continues at the target the standard defines, carries exactly the label\'s operands in order, discards '
     'the operands above the label\'s height, and leaves everything below untouched. Only the taken path has effects, and '
     'br_table uses its default exactly when the unsigned index is out of range.',
     ['programs', 'inputs'], 'all well-typed programs up to a size bound in a small alphabet, all construct nests up to a '
     'depth with every branch kind to every label, each run for several inputs',
     'A compiled example exercises one path; operand arities, values left underneath and rare branch forms are not covered.',
     [CORE], [{'name': 'label stack and branch unwinding', 'where': CORE}],
     ['results, traps and host-call log of invocations'],
     'exhaustive enumeration of all programs up to a size bound, each executed and compared with a big-step reference',
     'model_checking', 'All programs up to the size bound; larger programs are not covered.')
prop('C09', 'Calls, locals and globals keep every activation separate',
     'A call receives its arguments in order, starts with zeroed declared locals of the declared types, returns its results '
     'in order, and cannot see or change the operands or locals of any other activation, at any depth of direct, indirect, '
     'mutual or host-mediated calls. Mutable globals keep the last value written by anyone sharing them, immutable ones '
     'never change. Recursion that exceeds the implementation limit traps rather than corrupting state.',
     ['programs', 'inputs'], 'all call graphs, signatures and local layouts of a bounded family, all value types',
     'Examples use single-result calls on a few types with shallow nesting.',
     [CORE], [{'name': 'activation frames', 'where': CORE}], ['results, traps and host-call log of invocations'],
     EX, 'model_checking', 'All members of the bounded program family.')
prop('C10', 'A trap or host error ends one invocation and leaves the runtime usable',
     'When an invocation, start function or instantiation traps, a host function raises, or the host interrupts it at any '
     'point, the caller of the runtime sees an exception and side effects made before that stay. Every later invocation on the same runtime then behaves '
     'exactly as if the aborted one had ended normally at that point: no leftover operands, frames or labels change any '
     'later result.',
     ['histories', 'fault_sequences'], 'all sequences up to a depth of trapping and normal invocations and failing '
     'instantiations over one shared runtime, with traps at every nesting depth',
     'No test continues to use a runtime after a trap.', [CORE],
     [{'name': 'reset of the operand, label and frame stacks when a trap escapes', 'where': CORE}],
     ['results, traps, memory and globals after each step'], BFS, 'fault_enumeration',
     'Exhaustive to the stated depth over the stated alphabet of faults.')
prop('C11', 'Decoding accepts every encoding of a module and rejects malformed ones',
     'A module decodes to the same behaviour whatever legal encoding is used: redundantly padded LEB128 integers anywhere, '
     'custom sections anywhere and in any number, empty or absent sections, any of the segment forms. A file with a wrong magic or version, a '
     'truncated file, or a section whose declared size does not match its contents, is rejected with an error rather than '
     'accepted with different content.',
     ['inputs'], 'all single (and pairs of) padded integer positions of a module using every section and immediate kind, '
     'all numbers and positions of custom sections, all truncation points',
     'Tests load a handful of compiler-produced files with one canonical encoding.',
     [CORE, LEB], [{'name': 'section and instruction readers', 'where': CORE}],
     ['decode errors', 'results of the exported functions of the decoded module'], EX, 'model_checking',
     'All single mutations of the stated kinds on the stated modules.')
prop('C12', 'Linking matches types exactly, shares what is imported and isolates the rest',
     'Instantiation succeeds exactly when every import is matched by kind, function type, value type, mutability and limits, '
     'and then initialises globals, tables, memories and segments from the module in order before running the start '
     'function. Imported objects are shared by every module that imports them; everything a module defines itself is private '
     'to the instance, including a second instance of the same decoded module and instances in another runtime.',
     ['configurations', 'histories'], 'the full matrix of offered against required import types, segment placements around '
     'the bounds, and histories of operations over several instances',
     'Tests only instantiate single modules with matching imports.', [CORE],
     [{'name': 'import matching and allocation', 'where': CORE}],
     ['instantiation errors', 'results of invocations on every instance'], BFS, 'model_checking',
     'Full matrices over the stated alphabets; histories to the stated depth.')
prop('C13', 'LEB128 encoding and decoding are inverse and bounded by the value',
     'Encoding any 32- or 64-bit integer and decoding it returns the integer, consuming exactly the encoded bytes and '
     'nothing after them; padded encodings decode to the same value. The encoding is the shortest one.',
     ['inputs'], 'all values within 2^16 of every 7-bit boundary up to 64 bits, signed and unsigned, with every padding',
     'No unit test of the codec runs here.', [LEB], [{'name': 'LEB128 codec', 'where': LEB}],
     ['encoded bytes', 'decoded value and position of the reader'], EX, 'model_checking', 'Complete for the stated ranges.')
prop('C14', 'Values cross the host boundary unchanged in both directions',
     'A value of any of the seven types passed by the host as an argument, returned to the host, handed to a host function, '
     'returned by a host function or read and written through an exported global or memory arrives with the same bits or '
     'number: integers in signed range, floats including infinities and signed zeros, vectors as bytes, and references '
     'including null. Arguments of a wrong number or of an impossible value are refused rather than misread, and so are exported names of another kind; what the host later does to its own copy of '
     'a value changes nothing inside.',
     ['inputs', 'programs'], 'all value types, boundary values, positions and routes (direct, through host functions, through '
     'globals), all pairs of types in one signature',
     'Examples pass small integers and floats only.', [CORE], [{'name': 'host value conversion', 'where': CORE}],
     ['values seen by the guest, by host functions and by the embedder'], EX, 'model_checking',
     'Complete for the stated alphabets.')

prop('C15', 'Runtimes affect neither each other, in any threads, nor the process',
     'Two runtimes used at the same time by two threads, one each, give the results, memory contents, traps, output and files '
     'that each gives alone, whatever the schedule, whether or not they run instances of the same decoded module: nothing that belongs to '
     'one execution is kept where another can see it. Decoding, instantiating, running a module or a WASI program leaves '
     'the settings of the process (current directory, umask, environment, signal handlers, standard streams, limits, generators, '
     'open descriptors) as they were.',
     ['schedules', 'programs'], 'all schedules of two threads with one or two preemptions, for pairs of 17 programs over the whole '
     'instruction set and WASI, and of every numeric and vector instruction with itself',
     'Tests run one module at a time in one thread.', [CORE, ARITH, WASI], [{'name': 'no state outside the runtime', 'where': CORE},
     {'name': 'no process-wide state', 'where': WASI}],
     ['results of both threads', 'settings of the process'],
     'stateless exploration of the real code: a controlled scheduler (bytecode-level, through sys.monitoring) enumerates every schedule of two '
     'threads within a bound on preemptions', 'model_checking', 'Every schedule within the stated bound on preemptions, for the stated pairs.')

prop('C16', 'Tracing shows what is executed and changes nothing',
     'Turning tracing on (pywasm.log.lvl) before or in the middle of anything changes no result, error, memory, host call or output of '
     'decoding, instantiation, invocation or a WASI program, whatever the values and names that occur. The trace of an invocation shows every executed '
     'instruction under its standard mnemonic in the order of execution, the listing of a decoded module shows all of its code, and with tracing off '
     'nothing is printed.',
     ['programs', 'inputs', 'histories'], 'every instruction, every nesting of control structures up to a depth with every branch target, '
     'boundary values of every type, truncated and corrupted modules, WASI programs, and every on-off pattern over a history',
     'The examples print traces that nobody reads; no test compares a run with tracing and one without.', [CORE, 'pywasm/log.py', 'pywasm/opcode.py'],
     [{'name': 'tracing in the decoder and the interpreter', 'where': CORE}, {'name': 'names of the instructions', 'where': 'pywasm/opcode.py'}],
     ['results with and without tracing', 'lines of the trace'], EX, 'model_checking',
     'Complete for the stated programs, nestings and values. Oracle: the run without tracing, and the host calls of the program for the order.')

W = lambda *m: [{'name': x, 'where': WASI} for x in m]
WB = ('explicit-state search over WASI call histories issued by a guest module to the real implementation on a scratch '
      'file system, compared with an in-memory model')
prop('C20', 'WASI paths never reach outside the preopened directory',
     'No sequence of WASI calls with any path strings (relative, absolute, with dot-dot, through symbolic links inside or '
     'outside, with prefixes of sibling names) reads, creates, changes, links, renames or removes anything outside the host '
     'directory given for the preopen. Such attempts fail with an error code and leave the outside world unchanged. Paths '
     'that stay inside are not refused because of the name under which the directory was preopened.',
     ['inputs', 'histories'], 'all path strings of up to four components over a hostile alphabet, for every path operation '
     'and flag, for several preopen names and directory layouts, and short histories that first plant links',
     'One example lists one directory; no hostile path is ever tried.', [WASI],
     W('lexical escape check', 'directory-relative system calls'),
     ['error codes', 'a full snapshot of the outside tree before and after'], WB, 'model_checking',
     'Complete for the path alphabet; single-threaded (no concurrent modification of the tree by other processes).')
prop('C21', 'WASI rights limit what a descriptor can do and only ever shrink',
     'Every descriptor operation requires its right and is refused (as not capable, or not permitted) without it, '
     'whatever else is true. A '
     'descriptor opened through another has no base or inheriting right outside the parent\'s inheriting rights, and rights '
     'set on a descriptor can only be a subset of the present ones. A connection accepted from a socket has no right which the '
     'listening socket neither has nor passes on.',
     ['histories', 'configurations'], 'every operation with each single right removed; all histories of rights changes and '
     'nested opens over a small lattice of right sets',
     'No test drops a right.', [WASI], W('rights check at the head of every call', 'rights computation of path_open'),
     ['error codes', 'rights reported by fd_fdstat_get'], WB, 'model_checking', 'Complete for the stated rights lattice.')
prop('C22', 'WASI descriptors have a sound life cycle and no host descriptor leaks',
     'Over any history of open, close and renumber, a descriptor number refers to exactly the object last given to it, a '
     'closed or never-opened number yields bad-descriptor errors everywhere, and no operation ever closes or uses a host '
     'descriptor belonging to something else. When the program ends, normally, by exit or by a trap, every host descriptor '
     'opened on its behalf is closed exactly once, the standard streams stay open, and no number of the program works any more.',
     ['histories'], 'all histories of open, close, renumber, write and program end up to a depth over a few names',
     'No test closes or renumbers descriptors in unusual orders or counts host descriptors.', [WASI],
     W('descriptor table', 'clean-up at the end of main'), ['error codes', 'contents read through each descriptor',
     'the open host descriptors of the process'], WB, 'model_checking', 'Exhaustive to the stated depth.')
prop('C23', 'WASI file reading, writing and positioning match a plain file model',
     'Over any history of read, write, pread, pwrite, seek, tell, allocate, set-size and stat on descriptors of the same or '
     'different files, with any scatter/gather vectors and append or truncate modes, data, counts, offsets, sizes and error '
     'codes equal those of a plain in-memory file model. Positional operations never move the offset and failed operations '
     'change nothing.',
     ['histories', 'inputs'], 'all histories up to a depth over two descriptors of one file, with vectors of zero to three '
     'parts including empty parts', 'Examples write one short buffer to standard output.', [WASI],
     W('fd_read/fd_write family'), ['error codes and guest memory', 'host file contents'], WB, 'model_checking',
     'Exhaustive to the stated depth over the stated alphabet.')
prop('C24', 'WASI directory operations match a plain tree model',
     'Over any history of creating, opening, renaming, linking, unlinking, removing, symlinking, reading links and stat, the '
     'resulting tree, types, link counts, link targets and error codes equal those of a POSIX tree model, with open flags '
     '(create, exclusive, truncate, directory, no-follow) honoured. Failed operations change nothing and always return an '
     'error code to the guest.',
     ['histories'], 'all histories up to a depth over a few names with files, directories and links',
     'One example lists a directory; nothing else touches the tree.', [WASI], W('path_* calls'),
     ['error codes', 'the host tree after each step'], WB, 'model_checking', 'Exhaustive to the stated depth.')
prop('C25', 'WASI directory listing is complete, duplicate-free and resumable',
     'Reading a directory with any buffer size and resuming from any returned cookie lists every entry exactly once, '
     'including dot and dot-dot, with correct name bytes, name length, inode and type for files, directories and links, '
     'dangling ones included. The reported size never exceeds the buffer and is smaller than it only at the end of the '
     'directory, and nothing is written beyond the buffer. When entries are created, removed or renamed between the calls of one '
     'listing, every entry that stays is still listed exactly once and the others at most once; reading from cookie zero again '
     'lists what is there by then.',
     ['inputs', 'configurations'], 'all buffer sizes up to the whole listing plus slack, all cookies, for directories with '
     'zero to several entries, non-ASCII names and all entry types',
     'One example lists one directory with a large buffer.', [WASI], W('fd_readdir'),
     ['guest memory and returned size'], EX, 'model_checking', 'Complete for the stated directories and sizes.')
prop('C26', 'WASI arguments and environment reach the guest intact',
     'The counts and byte sizes reported for arguments and environment equal what is then written, each string is the exact '
     'UTF-8 text followed by one zero byte, pointers point at the strings in order, and nothing is written outside the two '
     'announced regions. This holds for empty lists, empty strings and non-ASCII text.',
     ['inputs', 'configurations'], 'all lists of up to three strings over an alphabet with empty, ASCII, multi-byte and '
     'special strings, for arguments and environment',
     'Examples pass no argument or one ASCII argument.', [WASI], W('args_get', 'environ_get'), ['guest memory'], EX,
     'model_checking', 'Complete for the stated string lists.')
prop('C27', 'WASI calls never touch memory outside the guest buffers named by the call',
     'For any pointer and length values, a WASI call either writes only the bytes of the buffers its arguments describe '
     'within the guest memory, or fails; it never changes the size of guest memory, never writes elsewhere in it, and '
     'never reads beyond it. A bad pointer gives an error to the guest or a trap, and the runtime stays usable.',
     ['inputs'], 'every WASI function with every pointer argument in turn set to each value of a boundary alphabet around '
     'the end of memory and the end of the address space, with several lengths',
     'Compiled programs only pass valid pointers.', [WASI, CORE], W('guest memory accessors'),
     ['guest memory size and contents after the call'], EX, 'model_checking', 'Complete for the pointer alphabet.')
prop('C28', 'WASI polling reports exactly the due events and waits no longer than asked',
     'Polling returns at least one event, namely precisely the subscriptions that are ready or due, each once with its own '
     'user data and type, and waits no longer than the earliest deadline whether relative or absolute. An invalid '
     'descriptor or missing right is reported and never blocks.',
     ['inputs', 'schedules'], 'all lists of up to three subscriptions over clocks (past, now, future; relative, absolute; '
     'realtime, monotonic) and ready or unready descriptors, under a virtual clock',
     'No test polls.', [WASI], W('poll_oneoff'), ['guest memory', 'virtual time that passed'],
     'exhaustive enumeration of subscription lists under a virtual clock and a recording select, against a model',
     'model_checking', 'Complete for the subscription alphabet; host select and clocks are replaced by a virtual clock.')
prop('C29', 'WASI program exit ends the guest at once with the given code, from any depth',
     'An exit call at any call depth, inside any control structure, in nested host calls or after any history stops the '
     'guest at once, runs no further guest instruction, and makes the entry point return exactly the code as given. A '
     'normal return gives zero, a trap gives an exception, and the runtime and captured output remain usable in each case. '
     'A program run by a host function of a running one, on the same runtime or another, leaves the outer one as it was.',
     ['programs', 'histories'], 'all exit codes of a boundary alphabet, all depths and control contexts of a bounded family',
     'Examples exit with code 0 only.', [WASI, CORE], W('proc_exit', 'main'), ['return code', 'output and memory after exit'],
     EX, 'model_checking', 'Complete for the bounded family.')
prop('C30', 'WASI file status, times and flags read back what was set',
     'File status reports the type, size, link count, inode and times of the object the descriptor or path refers to, even '
     'after it was renamed or unlinked, and setting times changes exactly the times asked for, on the link itself or its '
     'target as asked. Descriptor flags that were accepted read back and take effect; refused combinations change nothing.',
     ['histories', 'configurations'], 'all flag combinations, all histories up to a depth of rename, unlink, set times, set '
     'size, set flags and stat', 'No test sets times or flags.', [WASI], W('filestat and fdstat calls'),
     ['guest memory', 'host stat of the object'], WB, 'model_checking', 'Exhaustive to the stated depth.')
prop('C31', 'Host failures surface as WASI error codes, never as guest corruption',
     'When any host system call made on behalf of a WASI call fails with any error, the guest receives a non-zero error code '
     'fitting that error, the descriptor table and guest memory outside the result buffers stay as before, no host '
     'descriptor leaks, and later calls behave normally. No host failure ever reports success or aborts the guest.',
     ['fault_sequences'], 'for every WASI call, every host system call it makes is made to fail in turn with each error of a '
     'list, one fault per run, followed by normal operation',
     'Tests never meet a failing host call.', [WASI], W('error mapping'), ['error codes', 'state after the fault'],
     'exhaustive single-fault injection at every host call of every WASI function', 'fault_enumeration',
     'All single faults at the os-module seam; double faults only in the thorough tier.')
prop('C32', 'WASI sockets transfer bytes and shut down as asked',
     'Receiving from and sending to a socket descriptor transfers exactly the bytes of the scatter/gather vectors in order, '
     'peeking does not consume, accepting yields a usable new descriptor that stays open until closed, and shutting down one '
     'direction leaves the other working. Non-sockets are refused.',
     ['histories'], 'all histories up to a depth of send, receive (plain, peek), accept and shutdown over loopback pairs',
     'No test uses sockets.', [WASI], W('sock_* calls'), ['guest memory', 'bytes at the peer'], WB, 'model_checking',
     'Exhaustive to the stated depth; loopback only.')
prop('C33', 'The command line passes programs exactly what was asked',
     'The command line runs the named function with the parsed arguments and prints its results, or runs the program under '
     'WASI with exactly the given arguments, environment and directories, and exits with the program\'s code. Invalid '
     'requests fail with a non-zero status instead of running something else.',
     ['inputs', 'configurations'], 'all combinations of argument types, and of WASI argument, environment and directory '
     'options, over small alphabets', 'Two fixed command lines are tested.', [MAIN, WASI],
     [{'name': 'argument parsing', 'where': MAIN}], ['standard output and exit status of the process'], EX,
     'model_checking', 'Complete for the option alphabets.')
prop('C34', 'WASI clocks, random data and signals are what the program asked for',
     'Every clock reads as the host clock of that kind at the time of the call, and the three that count up never go back; an '
     'unknown clock is refused. Random data fills exactly the buffer, differs between calls, processes and runtimes whatever '
     'the embedder did with its own generator, and leaves that generator alone. A request to raise '
     'a signal is refused, and yielding changes nothing.',
     ['inputs', 'histories'], 'all clocks with all precisions, all sequences of clocks to a length, all sizes and places of a '
     'random buffer over a bounded range, all seeds of a range', 'No test reads a clock or random data.', [WASI],
     W('clock_*, random_get, proc_raise, sched_yield'), ['guest memory', 'host clocks'], EX, 'model_checking',
     'Complete for the alphabets of arguments; statistical quality of random data is not judged.')
prop('C35', 'WASI preopened directories are announced as given and stay what they are',
     'The directories the embedder gives a program are its consecutive descriptors from 3 on; each is announced, under exactly '
     'its name whatever bytes that has and whatever buffer sizes are tried, and leads to exactly its directory, however the host path was '
     'written and whatever the host later does to its own directory or to the names of these. No other descriptor is ever '
     'announced, and closing and renumbering move or end an announcement with the descriptor.',
     ['inputs', 'histories'], 'all ordered choices of up to three names with their directories, all buffer sizes, all '
     'histories of open, close and renumber to a depth after each disturbance by the host',
     'The test programs use one or two directories with plain names.', [WASI],
     W('Preview1.__init__, fd_prestat_get, fd_prestat_dir_name, fd_renumber'), ['announced names', 'identity of the directories'],
     EX, 'model_checking', 'Complete for the alphabets of names and paths and the depth of the histories.')
prop('C36', 'A host function acts on the memory of the instance whose code calls it',
     'Several instances on one runtime may call each other directly, through tables and through the host, from start '
     'functions as well, and traps may be caught by the host in between. Whenever one of them calls a WASI function or a function of the '
     'embedder, however it got hold of it, that function reads and writes the memory of exactly this instance and no other, '
     'also after inner calls have returned or failed.',
     ['histories', 'inputs'], 'all sequences of calls, returns and traps between three instances and a start function to a length, '
     'and every WASI function in each way of calling', 'The test programs consist of one instance.', [CORE, WASI],
     [{'name': 'host calls', 'where': CORE}, {'name': 'memory of every WASI function', 'where': WASI}],
     ['contents of all memories', 'results'], EX, 'model_checking', 'Complete for sequences up to the stated length.')

prop('C37', 'Instructions compose: operands from anywhere, and no effect on other copies',
     'The result of an instruction depends on the values of its operands only: not on whether they come from a parameter, a local, a global, a '
     'constant, a block, a branch, a call, memory, a table or the instruction just before, nor on how often the same code ran before. Any sequence of '
     'instructions gives what its instructions give one by one, and every other copy of a value (in locals, globals, constants of the code, '
     'the operand stack, callers, tables) stays what it was, whatever is done with one of them.',
     ['inputs', 'histories'], 'every instruction with operands from every pair of places, every ordered pair of instructions, every '
     'sequence of moves between four places',
     'The specification tests run each instruction alone, on parameters or constants.', [CORE],
     [{'name': 'evaluation loop, value representation', 'where': CORE}], ['results', 'every other copy of the operands'], EX, 'model_checking',
     'Complete for pairs of instructions and places, with two operand values each; longer sequences only for moves.')

prop('C38', 'The host sees and changes guest memories and globals as they are',
     'A memory or global that the embedder reaches by exported_memory or exported_global (or allocated itself) is the one the guest uses: what '
     'either writes, the other reads at once, also in the middle of a call of a host function, after growth by either side, after traps, through '
     'every name, handle and importing instance, and no other instance is affected. The accessors of a memory (get, put, and those of i32, i64, '
     'u8, u16, u32, u64) read and write exactly the little-endian bytes addressed; what get returned and what was given to put remain '
     'separate from the memory; addresses and values out of range (negative ones too) are refused and change nothing; growth respects the '
     'declared maximum.',
     ['inputs', 'histories'], 'every accessor x address x edge value; every sequence of accesses by the host and by guests to a bound',
     'The examples write one buffer before a call and read one after it.', [CORE],
     [{'name': 'MemInst, GlobalInst, exported_memory, exported_global', 'where': CORE}], ['memory and global contents for host and guests', 'refusals'], EX, 'model_checking',
     'Complete for the stated accessors, addresses and histories.')


def design(checks):
    """The part of DESIGN.md on the single properties."""
    out = []
    for p in P:
        mod = importlib.import_module('mc.checks.' + p['id'])
        b = getattr(mod, 'BOUNDS', None)
        out += ['### %s %s' % (p['id'], p['title']), '', '*Decided by* ' + p['technique'] + ' (level: ' + mod.LEVEL.replace('_', ' ') + ').',
                '*Explored:* ' + mod.RULE]
        if b:
            out.append('*Bounds:* ' + (b if isinstance(b, str) else '; '.join('%s: %s' % e for e in b.items())) + '.')
        out += ['*Assumptions and freedoms:* ' + '; '.join(mod.ASSUMPTIONS) + '.', '*Beyond the tests:* ' + p['why'] + ' ' + p['note'], '']
    f = os.path.join(HERE, 'DESIGN.md')
    s = open(f).read()
    a, b = s.index('<!-- properties -->\n'), s.index('<!-- end of properties -->')
    wrapped = []
    r = os.path.join(HERE, 'tools', 'seed_results.json')
    if os.path.exists(r):
        out += ['', '## Planted changes', '', 'Each is caught or missed by the quick check of its property, as last run by `tools/seed.py check`.', '']
        for k, (pid, res, needs, breaks) in json.load(open(r)).items():
            out += ['* `%s` (%s, %s): %s. Needs: %s.' % (k, pid, res, breaks.rstrip('.'), needs.rstrip('.'))]
    for l in out:
        wrapped += textwrap.wrap(l, 120) if l and not l.startswith('#') else [l]
    open(f, 'w').write(s[:a] + '<!-- properties -->\n' + '\n'.join(wrapped) + '\n' + s[b:])


def main():
    claimed, out = [], []
    for p in P:
        out.append({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                    'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                    'anchors': {'files': p['files'], 'mechanism': p['mechanism'], 'observe_at': p['observe'],
                                'hook_needed': None, **({'state': p['state']} if p['state'] else {})}})
        assert len(p['title']) <= 80, p['title']
        assert p['statement'].count('. ') <= 2, p['id']
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for e in out:
            f.write(json.dumps(e) + '\n')
    checks, na = [], []
    sys.path[:0] = [HERE, '/repo']
    for p in P:
        if os.path.exists(os.path.join(HERE, 'mc', 'checks', p['id'] + '.py')):
            mod = importlib.import_module('mc.checks.' + p['id'])
            checks.append({'property': p['id'], 'quick_cmd': './run.sh %s quick' % p['id'],
                           'thorough_cmd': './run.sh %s thorough' % p['id'], 'technique': p['technique'],
                           'level': mod.LEVEL, 'level_note': p['note']})
        else:
            na.append({'property': p['id'], 'reason': 'the check of this property is not built yet'})
    doc = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'Everything is Python run from the working tree of /repo; no build and no hooks are needed.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(doc, f, indent=1)
        f.write('\n')
    design(checks)
    print(len(P), 'properties,', len(checks), 'checks')


main()
