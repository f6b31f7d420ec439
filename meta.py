#!/usr/bin/env python3
"""The one table from which properties.jsonl and MANIFEST.json are generated:  python3 meta.py"""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
L = 'libCrashDebug/src/'
MS, EL, CC, GL, CL, MP, SC = L + 'MemorySim.c', L + 'ElfLoad.c', L + 'CrashCatcherDump.c', L + 'GdbLogParser.c', L + 'CrashDebugCommandLine.c', L + 'mriPlatform.c', L + 'StandardIComm.c'
CO, TC, MA, CM = 'libCrashDebug/mocks/Console.c', 'include/try_catch.h', 'main/main.c', 'libcommon/src/common.c'
P = []
def prop(id, title, statement, over, quant, why, files, mech, level_note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, note=level_note, observe=observe))

EXEC = 'every harness choice sequence within the bounds is executed on the compiled repository code, plain and under AddressSanitizer; '

prop('C01', 'Simulated memory behaves as one byte array per region',
 'For every set of created regions, a read returns exactly the bytes most recently written there (zero if never written) in little-endian order, for 8-, 16- and 32-bit accesses at any alignment, and bytes that were not addressed by a write never change. An access succeeds exactly when it lies completely inside one region; otherwise it raises a bus error and changes nothing. Where regions overlap, the region created first that contains the whole access serves it, and a fresh memory carries nothing over from an earlier one.',
 ['inputs', 'histories'], 'all region layouts, access sizes, addresses (including both ends of the 4 GB space) and write histories',
 'The unit tests try a handful of regions, one access each; partial overlaps, straddling accesses, the ends of the address space and histories of overlapping writes are unbounded.',
 [MS], [('findMatchingRegion/getDataPointer', MS), ('MemorySim_CreateRegion', MS), ('read/write 8/16/32', MS)],
 EXEC + 'compared after every history with a byte-array reference model over a whole address window.')
prop('C02', 'Read-only regions can never be modified',
 'Once a region has been made read-only, no 8-, 16- or 32-bit write and no host mapping for writing, through any address or alias that reaches it and of any size, succeeds: it raises a bus error and the contents stay the same. Reads, host mappings for reading and writes to other regions keep working, and only loading an image changes its contents.',
 ['inputs', 'histories'], 'all layouts, protected addresses, aliases and attack addresses and sizes',
 'The tests write once to one read-only region through one function; the guarantee is about every path, address, size and alias.',
 [MS], [('isReadOnly test in getDataPointer', MS), ('MemorySim_MakeRegionReadOnly', MS)],
 EXEC + 'after every attack the whole window is compared with the reference model.')
prop('C03', 'Aliases are another name for the same bytes',
 'For every alias, including aliases of aliases, each access at an offset inside it behaves exactly like the same access at that offset in the memory it redirects to: same values, same faults, same write protection, and a write through either name is seen through both. An alias never reaches beyond the end of the region it redirects to, whatever size was asked for, and creating one whose target is not mapped raises a bus error and creates nothing.',
 ['inputs', 'histories'], 'all alias placements, sizes, chains, overlaps with regions, orders of aliasing and protecting',
 'The tests create one alias at a time with a few sizes; chains, clipped sizes and interplay with protection are combinations they never build.',
 [MS], [('MemorySim_CreateAlias', MS), ('address translation in findMatchingRegion', MS)],
 EXEC + 'compared with a reference model that resolves aliases to (region, offset).')
prop('C04', 'The GDB memory map describes exactly the mapped memory',
 'At any time the memory map XML given to GDB is one well-formed document that lists every region and alias exactly once, in creation order, with its true start and length and with type flash (1-byte blocks) exactly when writes to it fault, else ram. It is complete for any number of regions and any addresses and sizes, and asking for it again after changes gives the new map.',
 ['inputs', 'histories'], 'all operation sequences and region counts',
 'Tests cover up to two regions with a few values; buffer sizing depends on the number of regions and the digits of every value.',
 [MS], [('MemorySim_GetMemoryMapXML', MS), ('allocateMemoryMapXML', MS)],
 EXEC + 'compared byte for byte with a map built independently from the reference model.')
prop('C05', 'Break- and watchpoints trigger exactly on matching accesses',
 'After any history of setting and clearing, a 16-bit read raises the hardware breakpoint exception exactly when it lies inside a breakpoint that is set, and any access reports a watchpoint hit exactly when it lies inside a set watchpoint of a matching kind (read, write or both), whichever alias is used and wherever in the address space it is. Setting twice equals setting once, clearing removes exactly the one given, ranges that are not mapped raise a bus error, and a hit is reported until it is asked for, once.',
 ['inputs', 'histories'], 'all set/clear histories, kinds, ranges, access kinds, addresses and sizes',
 'The order-dependent sorted list with early exit is only tested on short fixed sequences; the guarantee is about every history and access.',
 [MS], [('setWatchpoint/clearWatchpoint', MS), ('checkForBreakWatchPoint/accessInRange', MS)],
 EXEC + 'after each history every access in the window is compared with a set-based reference.')
prop('C06', 'Flash read counts equal the number of halfword reads',
 'For every read-only region, the read count of an address equals the number of 16-bit reads of the halfword containing it since the region was made read-only, through any alias; 8- and 32-bit reads, writes and reads of other halfwords do not change it, and protecting the region again keeps it. Asking for the count of writable or unmapped memory raises a bus error.',
 ['inputs', 'histories'], 'all region sizes (odd ones too), access histories, aliases',
 'Tests count a few reads in one small region.', [MS], [('pReadCounts in getDataPointer', MS), ('MemorySim_GetFlashReadCount', MS)],
 EXEC + 'counts of every address in the window compared with the reference.')
prop('C07', 'A failed allocation leaves the simulated memory unchanged',
 'When any allocation fails, the memory operation in progress raises out-of-memory and has no effect: the memory map, contents, protection, watchpoints and counts are those before the call, and the memory stays usable. After release nothing stays allocated, whatever failed.',
 ['fault_sequences', 'histories'], 'every operation sequence up to the bound combined with every placement of up to two failed allocations',
 'Tests inject one failure into each operation on an empty memory and look at the exception only.', [MS], [('__catch/freeRegion in CreateRegion and CreateAlias', MS), ('freeLastRegion', MS), ('growWatchpointArrayIfNeeded', MS)],
 EXEC + 'allocation failures are choices of the explorer; allocations are tracked to detect leaks.')
prop('C08', 'An image becomes read-only flash plus the RAM its vector implies',
 'Loading a flash image of any size places exactly its bytes, read-only, at address 0 and creates writable RAM from the 256 MB-aligned base of the initial stack pointer (first word) up to exactly that stack pointer; images shorter than 4 bytes are refused. Loading raw bytes into existing memory stores exactly those bytes, for every length and alignment, read-only or not.',
 ['inputs'], 'all image lengths up to the bound and initial stack pointers of every kind',
 'Tests load images of one or two sizes.', [MS], [('MemorySim_CreateRegionsFromFlashImage', MS), ('MemorySim_LoadFromFlashImage', MS)],
 EXEC + 'map and every byte compared with the reference.')
prop('C09', 'ELF images are loaded faithfully at their physical addresses',
 'For every valid 32-bit little-endian executable ELF, loading creates, in program header order, one read-only region for each loadable segment with non-zero file size not larger than its memory size, at its physical address, exactly as long as its file size and holding exactly its bytes from the file. Every other segment is ignored, wherever the program headers lie and whatever their entry size, and nothing else is mapped.',
 ['inputs'], 'all program header tables within the bound: counts, entry sizes, order, types, sizes, addresses',
 'Tests use one or two hand-made headers with equal virtual and physical layout.', [EL], [('loadFlashLoadableEntries', EL), ('isFlashLoadableEntry', EL)],
 EXEC + 'map and bytes compared with a reference derived from the generated headers.')
prop('C10', 'Malformed ELF images are refused without touching foreign memory',
 'For every byte sequence offered as ELF, loading either succeeds with regions whose bytes all come from inside the file or raises an error; it never reads outside the file, crashes or hangs. Files that are truncated, have a wrong magic, class, byte order, type, header offset, count or entry size, headers or segments reaching outside the file (including offsets and sizes that overflow 32 bits), or no loadable segment at all, are refused with an ELF format error that says why.',
 ['inputs'], 'every truncation of valid files, every byte of the headers replaced by every value class, pairs of extreme header fields',
 'Tests corrupt one field at a time with one value.', [EL], [('fetchSizedByteArray', EL), ('validateElfHeaderContents', EL)],
 EXEC + 'the file lies at the end of an exactly sized heap block watched by AddressSanitizer; acceptance is decided by a reference validator.')
prop('C11', 'CrashCatcher dumps are reproduced exactly',
 'For every well-formed CrashCatcher dump, version 2 or 3, with or without floating point registers and with any number and size of memory regions, reading it yields exactly its flags, integer registers, exception PSR, floating point registers and writable memory regions, byte for byte and nothing else. Version 2 dumps, which carry no MSP and PSP, get 0xBAADBAAD for both.',
 ['inputs'], 'all combinations of version, flags, register patterns, region counts, sizes and addresses',
 'Tests use a few fixed dumps with one or two regions.', [CC], [('readDump', CC), ('createAndLoadMemoryRegion', CC)],
 EXEC + 'context and memory compared with the generated dump, for the binary and the hex reader.')
prop('C12', 'Hex dumps mean the same as binary dumps',
 'A dump in hex form, in upper, lower or mixed case and with carriage returns and line feeds anywhere between digits (or none), yields exactly the same registers, memory and errors as the binary dump it encodes. Any other character in it is refused.',
 ['inputs'], 'all dumps of C11 and C13, line widths, line ends and digit cases; every non-hex character at every position',
 'Tests use a few fixed hex texts.', [CC], [('hexRead', CC), ('nibbleDigitToVal', CC)],
 EXEC + 'differential: both readers of the repository run on the same dump and the results are compared.')
prop('C13', 'Truncated or foreign dumps are refused, never half-believed',
 'A dump cut off anywhere other than after a complete memory region or the registers, or with a wrong signature or version, raises a file format error that names the missing part; it is never accepted. A dump that ends in the CrashCatcher stack overflow marker where a region header would be raises the stack overflow error instead, and nothing is leaked or left open.',
 ['inputs', 'fault_sequences'], 'every truncation length of every dump shape, every signature byte value, marker positions',
 'Tests truncate at about ten hand-picked places.', [CC], [('result checks in readDump and its helpers', CC), ('isStackOverflowSentinelInsteadOfRegionDescription', CC)],
 EXEC + 'the expected verdict for each length comes from the dump grammar.')
prop('C14', 'GDB logs yield exactly the memory they show',
 'For every sequence of "x/4wx" style lines in a GDB log, reading it creates writable regions covering exactly the words shown, each word with its shown value, for one to four values per line, with or without (nested) symbols and for any address order; consecutive lines form one region. Words that the log does not show are not mapped.',
 ['inputs'], 'all short sequences of memory lines over the line grammar',
 'Tests use a few fixed logs with full four-word lines.', [GL], [('parseMemoryLine', GL), ('firstPassMemoryHandler/secondPassHandler', GL)],
 EXEC + 'regions and words compared with an independent model of the log.')
prop('C15', 'GDB logs yield exactly the registers they show',
 'Each core register line (r0-r12, sp, lr, pc, xpsr, msp, psp, fpscr) sets that register to the shown value and no other; each s0-s31 line sets that register to its raw hexadecimal value and marks the dump as having floating point registers. The last line for a register wins, registers not shown keep their previous value, except msp and psp which are 0xBAADBAAD.',
 ['inputs'], 'all registers, value formats, pairs and orders of lines',
 'Tests check each register once in one fixed log.', [GL], [('isRegisterLine table', GL), ('parseFloatRegisterLine', GL)],
 EXEC + 'the whole register context compared with a reference.')
prop('C16', 'Other text in a GDB log changes nothing',
 'Text in a GDB log that is neither a memory nor a register line - prompts, commands, blank lines, other registers, messages, partial look-alikes - at any place in the log does not change the registers or memory read from it, not even whether neighbouring memory lines join into one region; carriage returns and a missing final newline make no difference either.',
 ['inputs'], 'every noise line of the grammar at every position of every base log; every one-character damage to a line prefix',
 'Tests have no noise beyond a few lines.', [GL], [('parseLine classification', GL)],
 EXEC + 'metamorphic: the log with noise is compared with the log without.')
prop('C17', 'Command line options work in any order and case, and only complete',
 'Options are recognised in any order and any letter case; for a repeated option the last one counts, each takes exactly its own arguments, numbers may be decimal, octal or hexadecimal, and the names and base address used are those given. A missing argument, unknown option, stray word, missing image or missing dump is refused as an invalid argument with a message naming the problem, before any dump is loaded.',
 ['inputs', 'configurations'], 'all argument vectors up to the bound over an alphabet of options, words and numbers',
 'Tests cover each option alone and a few errors.', [CL], [('parseArguments', CL), ('throwIfRequiredArgumentNotSpecified', CL)],
 EXEC + 'verdict, message and parsed state compared with a reference parser for every argument vector.')
prop('C18', 'Image, dump and aliases are combined consistently',
 'For every accepted command line, the resulting memory is the image (ELF or raw binary) as read-only memory, then the dump\'s RAM and registers, then the aliases in command line order, whatever the order of options; the dump format (CrashCatcher binary, CrashCatcher hex or GDB log) is recognised from the file contents alone, never from the name or length.',
 ['inputs', 'configurations'], 'all combinations of image kind, dump kind and contents, option order, aliases; every 4-byte file header class',
 'Tests load one pair at a time.', [CL], [('CrashDebugCommandLine_Init passes', CL), ('getFileType', CL)],
 EXEC + 'map, bytes and registers compared with a reference built from the generated files.')
prop('C19', 'Every load failure is reported and cleaned up',
 'Whatever goes wrong while loading - missing, unreadable or malformed files, failed seeks, reads or allocations, at any point - the program prints an ERROR line (naming the file that could not be opened, the image that could not be read or the alias that could not be created) and the usage to stderr, exits with a failure code without starting a session, and leaves no file open and no memory allocated. It never crashes and never continues with partially loaded data.',
 ['fault_sequences', 'inputs'], 'every placement of one (thorough: two) injected fault in fopen, fseek, ftell, fread, malloc over all image and dump kinds',
 'Tests inject one fault at a time at about twenty places.', [CL, MA, CC, GL, CM], [('__catch in CrashDebugCommandLine_Init', CL), ('loadFileData', CL), ('main', MA)],
 EXEC + 'faults are choices of the explorer; files and allocations are tracked.')
prop('C20', 'Raw binary images land unchanged at the given base address',
 'For every base address and every non-empty file that fits below 4 GB, the image is mapped as one read-only region at exactly that address with exactly the length and bytes of the file; an image that does not fit, or an empty file, is refused with an error naming that address and nothing is left behind.',
 ['inputs'], 'file lengths 0..n, alignments and base addresses incl. the end of the address space',
 'Tests load one fixed file at one or two addresses.', [CL, MS], [('loadBinFile', CL), ('MemorySim_LoadFromFlashImage', MS)],
 EXEC + 'map and bytes compared with the file.')
prop('C21', 'Exceptions always reach the innermost handler with the right code',
 'For every nesting of try blocks, an exception ends exactly the innermost active block, its handler sees the code (the largest if raised again while being handled) and message of that exception, and handled or finished blocks are no longer active. Entering a try block clears code and message; a block that ends with no exception pending does not run its handler, and an exception that was handled but not cleared stays pending. A rethrow goes to the next outer handler, messages are cut to 1023 characters, and an uncaught exception ends the program.',
 ['programs', 'histories'], 'all programs of nested try/catch/throw/rethrow up to a size',
 'Tests cover a few fixed nestings.', [TC, 'libcommon/src/try_catch.c'], [('__try/__catch/__throw', TC)],
 'every program of the bounded grammar is run through the real macros by an interpreter and compared with a reference semantics; ')
prop('C22', 'File size helper is exact and restores the position',
 'For every file and every current position, the file size helper returns the exact length in bytes and leaves the file positioned at its start; if any underlying seek or tell fails it raises a file error.',
 ['inputs', 'fault_sequences'], 'file lengths, start positions, every fault placement', 'One success and three failure tests.', [CM], [('GetFileSize', CM)],
 EXEC + 'with real files and injected faults.')
prop('C23', 'GDB reads and writes exactly the dumped registers',
 'Reading all registers in a session returns r0-r12, sp, lr, pc, xpsr, msp, psp in order, little-endian, followed by s0-s31 and fpscr exactly if the dump has floating point registers; writing them sets exactly those values and nothing else, and a later read returns what was written. A register write that is too short is answered with an error.',
 ['inputs', 'histories'], 'all register patterns, with and without FPU, write/read histories',
 'Tests use one fixed pattern.', [MP], [('Platform_CopyContextToBuffer/FromBuffer', MP)],
 EXEC + 'whole packets through the debug core stand-in compared with a reference.')
prop('C24', 'The reported signal follows from the active exception',
 'The stop reply sent to GDB names SIGINT, SIGSEGV, SIGSEGV, SIGBUS, SIGILL or SIGTRAP when the dump\'s exception number is 2 (NMI), 3 (hard fault), 4 (memory management), 5 (bus fault), 6 (usage fault) or 12 (debug monitor), and SIGSTOP for every other of the 512 exception numbers; other bits of the exception PSR never matter. It carries the current r12, sp, lr and pc, also after they were changed.',
 ['inputs', 'histories'], 'all 512 exception numbers, other PSR bits, register patterns', 'Tests try each known exception once with all other bits zero.', [MP], [('Platform_DetermineCauseOfException', MP), ('Platform_WriteTResponseRegistersToBuffer', MP)],
 EXEC + 'all exception numbers enumerated.')
prop('C25', 'The fault explanation names exactly the bits that are set',
 'When the exception is a hard, memory, bus or usage fault, the text shown to the GDB user lists exactly the causes whose bits are set in the dumped fault status registers, in the fixed order, with register values and with fault addresses exactly when flagged valid and dumped; a forced hard fault also explains the configurable faults that are pending. Other exceptions and clean status bits produce no such text, and missing status registers never stop the session.',
 ['inputs'], 'all subsets of the defined status bits, all exception numbers, any of the four registers missing', 'Tests set one bit at a time.', [MP], [('Platform_DisplayFaultCauseToGdbConsole', MP)],
 EXEC + 'text compared with an independent renderer for every combination of bits.')
prop('C26', 'A post-mortem session never executes or alters the crash state',
 'Step, continue, break- and watchpoint requests, console waits and queries of any kind leave all dumped registers and memory as they were; continuing or stepping immediately reports the same stop again. Only explicit register and memory writes change state, and only what they address.',
 ['histories'], 'all command sequences up to the bound', 'Tests send one command per session.', [MP], [('Platform_* no-op hooks', MP), ('mriPlatform_Run', MP)],
 EXEC + 'state compared after every command sequence.')
prop('C27', 'GDB memory packets access exactly the addressed bytes',
 'Reading memory in a session returns exactly the bytes of the simulated memory for any address and length (the readable prefix if the end is unmapped, an error if nothing is), and writing in hex or binary form changes exactly the addressed bytes or reports an error when any byte is unmapped or read-only. Aligned 2- and 4-byte accesses are one access that fails or succeeds as a whole. A failed access does not affect later ones.',
 ['inputs', 'histories'], 'all addresses and lengths in a window crossing region ends, all pairs of accesses, all byte values', 'Tests use a few fixed addresses.', [MP, MS], [('Platform_MemRead/Write', MP), ('Platform_WasMemoryFaultEncountered', MP)],
 EXEC + 'packets through the debug core stand-in compared with the reference memory.')
prop('C28', 'GDB is given the right target description and memory map in pieces',
 'Reading the target description or the memory map in pieces of any size and offset yields, when put together, exactly one well-formed document: the description lists the 19 core registers (with floating point registers exactly if the dump has them) in the layout used by register reads, and the map lists all regions and aliases with their types. Piece boundaries never lose, repeat or alter a character.',
 ['inputs'], 'all piece sizes and offsets, FPU or not, memory layouts', 'Tests fetch the first piece.', [MP, MS], [('Platform_GetTargetXml', MP), ('Platform_GetDeviceMemoryMapXml', MP)],
 EXEC + 'documents reassembled, parsed and compared with the layout of register reads and the reference memory map.')
prop('C29', 'The console transport delivers every byte unchanged and in order',
 'Every byte value received from or sent to GDB passes through unchanged, in order and exactly once; waiting bytes are reported as available, and GDB counts as connected from its first byte on. End of input or an input, output or select error is reported (as an exception, or as no data available) and never as data, so that a session whose input ends or cannot be read or polled terminates.',
 ['inputs', 'fault_sequences', 'schedules'], 'all byte values, arrival patterns, errors at every call', 'Tests use a mocked console.', [SC, 'main/MockDefaults.c'], [('receiveChar/hasReceiveData', SC), ('Console_ReadStdIn', 'main/MockDefaults.c')],
 EXEC + 'read, write and select are scripted by the explorer.')
prop('C30', 'A whole session reflects the given dump files',
 'Run with an image and a dump of any supported kind, the program answers a GDB session over stdin and stdout, speaking only when asked, with the registers, memory, memory map, signal and fault text of exactly those files, until the input ends; then it terminates, with every file closed and all memory released.',
 ['inputs', 'histories', 'configurations'], 'image kinds x dump kinds x aliases x command sequences', 'No test runs the program as a whole.', [MA, CL, MP, SC], [('main', MA)],
 EXEC + 'the real main() is driven with files on disk and a scripted console; every answer is compared with the reference.')
prop('C31', 'Failure injectors fail exactly the requested calls',
 'The allocation and file failure injectors used by the tests fail exactly the calls they were armed for with exactly the given result, pass every other call through to the real function unchanged, and after being restored have no further effect.',
 ['histories'], 'all sequences of arming, restoring and calling up to the bound', 'Tests arm each injector once.', ['libmocks/src/MallocFailureInject.c', 'libmocks/src/FileFailureInject.c'], [('mock_*/hook functions', 'libmocks/src')],
 EXEC + 'lockstep with a reference counter model.')
prop('C32', 'The printf spy records exactly what was printed',
 'While hooked, the printf spy returns what printf would return, counts every call and keeps the last outputs exactly as formatted, cut to the given buffer size, without ever writing past its buffers; after unhooking printf behaves normally again and nothing stays allocated.',
 ['inputs', 'histories'], 'all buffer sizes, output lengths and formats up to the bound, call sequences', 'Tests use two short strings.', ['libmocks/src/printfSpy.c'], [('mock_printf', 'libmocks/src/printfSpy.c')],
 EXEC + 'lockstep with snprintf.')
prop('C33', 'The doubles of console and connection replay and capture exactly',
 'The doubles which the unit tests use for the console and for the connection to GDB deliver exactly the bytes they were given, in order and once (the connection: the first text, then the second one or else an empty packet, with a pause between the two and after the requested delay), with the right checksum added to each packet where asked for; they capture exactly what was sent up to the requested size and never write past it; flags and exceptions last exactly until changed or reset, and nothing stays allocated after a reset.',
 ['inputs', 'histories'], 'all call sequences up to the bound, all byte values, lengths and capture sizes', 'Tests use two short packets.', ['libCrashDebug/mocks/mockIComm.cpp', 'libCrashDebug/mocks/mockConsole.c'], [('mockIComm_*', 'libCrashDebug/mocks/mockIComm.cpp'), ('ConsoleMock_*', 'libCrashDebug/mocks/mockConsole.c')],
 EXEC + 'lockstep with a reference model.')

cfg = json.load(open(V + '/checks/config.json'))
na = []
with open(V + '/properties.jsonl', 'w') as fh:
    for p in P:
        d = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'],
                 anchors=dict(files=[f for f in p['files'] if os.path.exists('/repo/' + f)], mechanism=[dict(name=n, where=w) for n, w in p['mech']]))
        if p['observe']: d['anchors']['observe_at'] = p['observe']
        assert len(p['title']) <= 80, p['title']
        assert d['anchors']['files'], p['id']
        fh.write(json.dumps(d) + '\n')
checks = []
for p in P:
    if p['id'] not in cfg:
        na.append(dict(property=p['id'], reason='model checking applies; the harness is not built yet'))
        continue
    c = cfg[p['id']]
    checks.append(dict(property=p['id'], quick_cmd=f"python3 run.py {p['id']}", thorough_cmd=f"VERIF_TIER=thorough python3 run.py {p['id']}",
        technique=c.get('technique', 'exhaustive bounded exploration of the real code (stateless model checking, depth first over all choice sequences) in lockstep with a reference model'),
        level=c['level'], level_note=p['note']))
man = dict(version=1, setup_cmd='python3 run.py --build-all', checks=checks, not_applicable=na)
json.dump(man, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(P), 'properties', len(checks), 'checks')
