"""Harness configurations per property: (entry, parameters, seconds)."""
G = 'graphs of at most %s items with every edge set (self loops included where stated) and every root set, every item size below 2^26 and every total size; '
CHECKS = {
'C08': dict(
    quick=[('h_c08', dict(n=3, mode=0), 60)],
    thorough=[('h_c08', dict(n=3, mode=0), 60), ('h_c08', dict(n=4, mode=2), 300), ('h_c08', dict(n=4, mode=1), 900)],
    bounds='all graphs of 3 items (all 512 edge sets, all root sets); thorough: 4 items without self loops',
    outside='graphs with more items'),
'C09': dict(
    quick=[('h_c09', dict(n=3, mode=0), 90)],
    thorough=[('h_c09', dict(n=3, mode=0), 120), ('h_c09', dict(n=4, mode=2), 300), ('h_c09', dict(n=4, mode=1), 1200)],
    bounds='all graphs of 3 items, all sizes below 2^26; thorough: 4 items without self loops',
    outside='graphs with more items; size sums that exceed 32 bits (files over 4 GiB)'),
'C11': dict(
    quick=[('h_c11_graph', dict(n=3), 60), ('h_c11_id', {}, 30)],
    bounds='all graphs of 3 items; all pairs of ids over all section and entry numbers',
    outside='larger graphs'),
'C10': dict(
    quick=[('h_c10', dict(n=3, mode=1), 60)],
    thorough=[('h_c10', dict(n=3, mode=0), 300), ('h_c10', dict(n=4, mode=2), 900)],
    bounds='all graphs of 3 items without self loops, all sizes, limits, kinds (code/data), three formats',
    outside='larger graphs; name characters (C19, C20)'),
'C13': dict(
    quick=[('h_c13', dict(n=4, retained=0), 40), ('h_c13', dict(n=3, retained=1, mode=1), 60)],
    thorough=[('h_c13', dict(n=5, retained=0), 300), ('h_c13', dict(n=4, retained=1, mode=2), 900), ('h_c13', dict(n=3, retained=1, mode=0), 600)],
    bounds='4 items with all sizes and limits; retained sizes on all graphs of 3 items without self loops',
    outside='more items'),
'C14': dict(
    quick=[('h_c14', dict(n=3, args=a, format=f), 30) for a in (0, 1, 2) for f in (0, 1, 2)],
    thorough=[('h_c14', dict(n=3, args=a, format=f, mode=0), 200) for a in (0, 1, 2) for f in (0, 1, 2)],
    bounds='all graphs of 3 items without self loops, all sizes, depth and row limits; no arguments, one or two named items',
    outside='larger graphs'),
'C15': dict(
    quick=[('h_c15', dict(n=3, mode=1, args=3, format=0), 60), ('h_c15', dict(n=3, mode=1, args=2, format=1), 60), ('h_c15', dict(n=3, mode=1, args=2, format=2), 60), ('h_c15', dict(n=3, mode=0, args=3, format=0, limits=0), 60)] +
          [('h_c15', dict(n=4, mode=2, args=1, format=f, rootsame=1, flat=1), 60) for f in (0, 1, 2)],
    thorough=[('h_c15', dict(n=3, mode=0, args=3, format=f), 900) for f in (0, 1, 2)] + [('h_c15', dict(n=4, mode=1, args=1, format=f, rootsame=1, flat=1), 900) for f in (0, 1, 2)],
    bounds='all graphs of 3 items, and acyclic ones (thorough: all without self loops) of 4 items of fixed sizes, depth and row limits 0 to 5, ascending and descending',
    outside='larger graphs'),
'C12': dict(
    quick=[('h_c12_plain', dict(len=7), 30), ('h_c12_plain', dict(len=5, any=2, utf8=1), 30)] +
          [('h_c12_mangled', dict(len=3, prefix=p), 60) for p in (0, 1, 2, 3, 4, 5, 7, 9, 10)] +
          [('h_c12_mangled', dict(len=2, prefix=p, suffix=x), 60) for p in (6, 8) for x in (0, 1, 2)],
    thorough=[('h_c12_plain', dict(len=10), 120), ('h_c12_plain', dict(len=6, any=2, utf8=1), 120)] +
          [('h_c12_mangled', dict(len=4, prefix=p), 400) for p in (0, 1, 2, 3, 4, 5, 7, 9, 10)] +
          [('h_c12_mangled', dict(len=3, prefix=p, suffix=x), 200) for p in (6, 8) for x in (0, 1, 2)],
    bounds='plain names of up to 7 bytes drawn from the characters the rules look at, of 5 arbitrary printable bytes around a two-byte character, and mangled names made of one of 11 prefixes (_ZN, _Z, __Z, _GLOBAL_, _R, ...), up to 3 arbitrary printable bytes and one of 4 suffixes',
    outside='longer names; the demanglers themselves (rustc-demangle and cpp_demangle define the demangled form)'),
'C16': dict(
    quick=[('h_c16', dict(n=3, format=f, limits=l), 60) for f in (0, 1, 2) for l in (0, 1)],
    thorough=[('h_c16', dict(n=4, format=f, limits=0), 600) for f in (0, 1, 2)] + [('h_c16', dict(n=3, format=f, limits=1), 300) for f in (0, 1, 2)],
    bounds='3 items (thorough 4) with every choice of name among instantiations of two generics, a plain function and a data item, all sizes, limits and flags',
    outside='more items'),
'C17': dict(
    quick=[('h_c17', dict(old=2, new=2, format=f, limits=l, hash0=1), 60) for f in (0, 1, 2) for l in (0, 1)] + [('h_c17', dict(old=2, new=3, args=1, hash0=1), 60)],
    thorough=[('h_c17', dict(old=2, new=3, format=f, limits=l, hash0=1), 400) for f in (0, 1, 2) for l in (0, 1)] + [('h_c17', dict(old=3, new=3, args=1, hash0=1), 600)],
    bounds='two binaries of 2 items each (2 and 3 with arguments) with every choice of equal and different names, all sizes and totals, limits',
    outside='more items'),
'C18': dict(
    quick=[('h_c18', dict(cmd=c, format=f), 30) for c in (0, 1) for f in (0, 1, 2)] + [('h_c18_monos', dict(format=f), 30) for f in (0, 1, 2)] + [('h_c18_diff', dict(hash0=1), 60)] + [('h_c18_exact', dict(cmd=c, hash0=1), 30) for c in (1, 2, 3, 4)],
    thorough=[('h_c18', dict(cmd=c, format=f, n=4), 120) for c in (0, 1) for f in (0, 1, 2)] + [('h_c18_monos', dict(format=f, n=4), 200) for f in (0, 1, 2)] + [('h_c18_diff', dict(hash0=1), 60)] + [('h_c18_exact', dict(cmd=c, chars=4, hash0=1), 200) for c in (1, 2, 3, 4)],
    bounds='every selection of up to two arguments among plain names, expressions and invalid expressions, with and without --regex, on every name assignment of the harness; exact arguments against every item name of up to 2 characters (thorough 4)',
    outside='other expressions: the regex crate defines what an expression matches'),
'C19': dict(
    quick=[('h_c19', dict(cmd=c, chars=2, hash0=1), 60) for c in range(6)],
    thorough=[('h_c19', dict(cmd=c, chars=3, hash0=1), 300) for c in range(6)],
    bounds='every item name of up to 2 characters (thorough 3): every ASCII character and every two-, three- and four-byte UTF-8 sequence, in each of the six reports',
    outside='longer names (characters are escaped one by one)'),
'C20': dict(
    quick=[('h_c20', dict(cmd=c, chars=2, hash0=1), 60) for c in range(6)],
    thorough=[('h_c20', dict(cmd=c, chars=4, hash0=1), 300) for c in range(6)],
    bounds='every item name of up to 2 characters (thorough 4): every ASCII character and every two-, three- and four-byte UTF-8 sequence, in each of the six reports',
    outside='longer names'),
'C21': dict(
    quick=[('h_c21', dict(cmd=c, chars=2, hash0=1), 60) for c in range(6)],
    thorough=[('h_c21', dict(cmd=c, chars=3, hash0=1), 300) for c in range(6)],
    bounds='every item name of up to 2 characters, sizes of 1 to 7 digits in both orders, in each of the six reports',
    outside='longer names, other sizes'),
'C22': dict(
    quick=[('h_c22', dict(cmd=c, hash0=1), 60) for c in range(6)],
    thorough=[('h_c22', dict(cmd=c, hash0=1, mode=0), 300) for c in range(6)] + [('h_c22', dict(cmd=c, hash0=1, n=4), 600) for c in (0, 3, 4)],
    bounds='all graphs of 3 items without self loops, all sizes and totals, in each of the six reports',
    outside='larger graphs, names with special characters (C19 to C21)'),
}

def W(prop, groups, secs=60, **k):
    return [('h_wasm', dict(group=g, prop=prop, **k), secs) for g in groups]
PAIRS = [3, 5, 9, 17, 18, 20, 24, 36, 48, 96, 130, 132, 144, 258, 264, 2056, 2050, 4112, 4128, 4224, 1028]
WB = 'modules of every section kind, varying one group of their parts at a time (thorough: two groups): number and shape of types, imports of all five kinds, functions with up to two operators (calls, global accesses, indirect calls, constants, loads and stores, blocks), padded LEB128 numbers, tables with and without limits, element segments of all eight kinds, data segments of three kinds with five forms of address, names present or absent per index, name subsections known and unknown, custom sections, memories, globals with seven forms of initial value, exports of all kinds, start function, function bodies on both sides of the 127-byte length boundary'
WO = 'modules with more entries per section; features after the parser\'s wasmparser version; module-linking sections'
F = dict(forkloads=1)
def D(**k):
    return dict(k, forkloads=1)
CHECKS['C01'] = dict(
    quick=W(1, [1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048]) + [('h_c05', D(kind=5, len=1), 150)],
    thorough=W(1, [1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048], 300, deep=1) + W(1, PAIRS, 200) + [('h_wasm', dict(group=512, prop=1, pads=2), 200), ('h_c05', D(kind=5, len=2), 600)],
    bounds=WB + '; and a module with one of everything of which any one byte (thorough two) has any value', outside=WO)
CHECKS['C02'] = dict(
    quick=W(2, [1, 2, 4, 16, 32, 64, 128, 256, 2048, 4096]) + [('h_c02_chars', dict(len=2), 30)],
    thorough=W(2, [1, 2, 4, 16, 32, 64, 128, 256, 2048, 4096], 300, deep=1) + W(2, PAIRS, 200) + [('h_c02_chars', dict(len=5), 200)],
    bounds=WB + '; names of any two characters (thorough 5)', outside=WO + '; longer names')
CHECKS['C03'] = dict(
    quick=W(3, [1, 2, 4, 8, 16, 32, 128, 256, 2048, 4096]),
    thorough=W(3, [1, 2, 4, 8, 16, 32, 128, 256, 2048, 4096], 300, deep=1) + W(3, PAIRS, 200),
    bounds=WB, outside=WO)
CHECKS['C04'] = dict(
    quick=[('h_c04', dict(segments=1), 60), ('h_c04', dict(segments=2), 60), ('h_c04', dict(segments=3, kinds=1, bodies=1, length=2, least=1), 90), ('h_c04', dict(segments=2, known=1, bodies=1, kinds=1), 20)],
    thorough=[('h_c04', dict(segments=2), 60), ('h_c04', dict(segments=3), 900), ('h_c04', dict(segments=4, kinds=1, bodies=1, length=2), 600), ('h_c04', dict(segments=2, known=1), 60)],
    bounds='up to 3 data segments (thorough 4) of up to 2 bytes, active at any 32-bit constant address, passive or at an unknown address; a load with each of the 14 plain load instructions from any 32-bit constant plus any 32-bit static offset, in five kinds of body',
    outside='more or longer segments, 64-bit memories, SIMD and atomic loads')
CHECKS['C05'] = dict(
    args=['--max-steps', '30000000'],
    quick=[('h_c05', D(kind=0, len=9), 20), ('h_c05', D(kind=0, len=13, fixed=8), 20), ('h_c05', D(kind=1, len=2, exact=1), 30), ('h_c05', D(kind=1, len=0), 40),
           ('h_c05', D(kind=2, len=3), 30), ('h_c05', D(kind=3, len=4, hash0=1), 40), ('h_c05', D(kind=4, len=0), 20), ('h_c05', D(kind=4, len=1), 20), ('h_c05', D(kind=5, len=1), 150), ('h_c05', D(kind=6), 20)]
          + [('h_c05', D(kind=7, sec=s, len=3), 20) for s in range(12)],
    thorough=[('h_c05', D(kind=0, len=9), 20), ('h_c05', D(kind=0, len=16, fixed=8), 200), ('h_c05', D(kind=1, len=4, exact=1), 400), ('h_c05', D(kind=1, len=2), 600),
           ('h_c05', D(kind=2, len=5), 900), ('h_c05', D(kind=3, len=8, hash0=1), 900), ('h_c05', D(kind=4, len=3), 300), ('h_c05', D(kind=5, len=2), 600), ('h_c05', D(kind=5, len=3), 900), ('h_c05', D(kind=6), 60)]
          + [('h_c05', D(kind=7, sec=s, len=6), 200) for s in range(12)],
    bounds='every input of up to 9 bytes (13 with a valid header), every section of arbitrary kind, length and up to 2 bytes at every place in a module with one of everything, every function body of 3 bytes, every name section of 4 bytes, every truncation of that module with one more byte, every change of one of its bytes, every section removed, repeated or exchanged, the first 3 bytes of every section; termination within 30 million instructions',
    outside='longer arbitrary parts; memory exhaustion')
CHECKS['C11']['quick'] = CHECKS['C11']['quick'] + W(11, [4, 16, 32, 256, 2048])
CHECKS['C11']['bounds'] += '; items of parsed modules (groups of C01)'
CHECKS['C25'] = dict(
    quick=[('h_c25_graph', dict(n=3, mode=1), 60), ('h_c25_reports', dict(n=2), 90)] + W(25, [16, 32, 256, 4096]),
    thorough=[('h_c25_graph', dict(n=3, mode=0, steps=4), 600), ('h_c25_reports', dict(n=3, mode=1), 900), ('h_c25_reports', dict(n=2, before=2), 600)] + W(25, [1, 2, 4, 8, 16, 32, 64, 128, 256, 2048, 4096], 200),
    bounds='all graphs of 3 items without self loops and all sequences of 3 computations before; all graphs of 2 items, each report after each other one (of ten combinations of report and options), printed or not, in three formats; parsing twice: the modules of C01',
    outside='larger graphs, longer histories')
CHECKS['C05']['quick'].append(('h_c05', D(kind=8), 30))
CHECKS['C05']['thorough'].append(('h_c05', D(kind=8, free=1), 300))
CHECKS['C05']['bounds'] += '; every byte of the full module replaced by a five-byte number of four huge magnitudes (thorough: of any value)'

CHECKS['C06'] = dict(
    quick=[('h_c06', dict(contents=2, change=0), 40), ('h_c06', dict(free=0, names=2), 20), ('h_c06', dict(free=0, names=2, change=0, what=1, contents=2), 20)],
    thorough=[('h_c06', dict(contents=2, change=0), 40), ('h_c06', {}, 300), ('h_c06', dict(free=0, names=2, change=0, what=1, contents=2), 60)],
    bounds='inputs that begin with any four bytes (followed by a wasm module or an ELF file with DWARF) or are cut off within them, with every file extension of up to 4 characters, in every mode, unreadable ones included',
    outside='longer extensions, other continuations of the contents')
_c7 = [dict(n=1, locs=15, names=8), dict(n=1, locs=15, rmax=2, abits=31, addr=4), dict(n=1, locs=15, rmax=2, abits=40),
       dict(n=2, locs=9, names=2, addr=4, bits32=1, abits=31), dict(n=2, locs=4, shapes=1, addr=4), dict(units=2, n=1, locs=3, names=3, addr=4),
       dict(n=1, locs=18, version=5), dict(n=1, locs=18, version=5, be=1, addr=4, bits32=1), dict(n=1, locs=15, version=2),
       dict(n=1, locs=15, version=3, be=1), dict(n=1, locs=15, be=1, bits32=1, addr=4)]
CHECKS['C07'] = dict(
    quick=[('h_c07', p, 60) for p in _c7] + [('h_c07_bytes', D(), 60), ('h_c07_bytes', D(cut=1), 30)],
    thorough=[('h_c07', p, 120) for p in _c7] + [('h_c07', dict(n=3, shapes=1, locs=2, abits=33), 300), ('h_c07', dict(n=2, locs=15, addr=4), 600), ('h_c07', dict(n=2, locs=18, version=5, addr=4), 600), ('h_c07', dict(n=1, locs=15, rmax=3, abits=33), 300), ('h_c07_bytes', D(len=2), 600), ('h_c07_bytes', D(cut=1), 60)],
    bounds='ELF files of 32 and 64 bits and both byte orders with DWARF 2 to 5, one or two units of one or two subprograms (nested or not, among other entries), with no code, addresses, offsets or up to two ranges in every form the version has, of all address values, linkage names and names present, indirect or absent; and any byte of the DWARF sections having any value, or being cut off anywhere',
    outside='more entries; damaged ELF structure (the object crate 0.17 reads section contents out of range and panics); range entries that begin at one of the two largest addresses (tombstones, skipped by gimli); Mach-O files; type units and split DWARF')
CHECKS['C23'] = dict(
    quick=[('h_c23', dict(cmd=c, what=w), 30) for w in (0, 1, 2) for c in range(6)] + [('h_c23', dict(cmd=c, what=3), 40) for c in (0, 5)] + [('h_c23', dict(cmd=c, what=0, big=9000), 40) for c in (0, 3)],
    thorough=[('h_c23', dict(cmd=c, what=w), 60) for w in (0, 1, 2, 3) for c in range(6)] + [('h_c23', dict(cmd=c, what=0, big=9000, both=1), 200) for c in range(6)],
    bounds='each of the six commands in each format, to a file or standard output, on a simulated file system in which any open fails, any read or write fails, is interrupted or comes up short at any point, files are missing, invalid, unwritable, or cut off at any byte; reports smaller and larger than the buffers',
    outside='faults of closing a file (the standard library ignores them); a closed standard output (EBADF, which the standard library takes for success)')
CHECKS['C24'] = dict(
    quick=[('h_c24', dict(cmd=c, what=0, len=3), 30) for c in range(6)] + [('h_c24', dict(cmd=c, what=0, values=1), 30) for c in range(6)] + [('h_c24', dict(cmd=c, what=w), 30) for w in (1, 2) for c in range(6)]
          + [('h_c24', dict(cmd=c, what=0, flags=1, len=1), 30) for c in range(6)] + [('h_c24_setters', dict(cmd=c, steps=3), 30) for c in range(6)],
    thorough=[('h_c24', dict(cmd=c, what=0, len=5), 200) for c in range(6)] + [('h_c24', dict(cmd=c, what=0, values=1), 60) for c in range(6)] + [('h_c24', dict(cmd=c, what=w), 60) for w in (1, 2) for c in range(6)]
          + [('h_c24', dict(cmd=c, what=0, flags=1, len=2), 200) for c in range(6)] + [('h_c24_setters', dict(cmd=c, steps=5), 200) for c in range(6)],
    bounds='every option of every command, given alone and in pairs in its short and long forms, with any value of up to 3 characters (thorough 5) or any 32-bit number, and every sequence of 3 setter calls (thorough 5) with any values',
    outside='longer values and sequences; values that begin with a dash (the option parser clap decides those)')
CHECKS['C26'] = dict(
    quick=[('h_c26', dict(cmd=c, hash0=1), 60) for c in range(5)] + [('h_c26', dict(cmd=c, parse=1, hash0=1), 30) for c in range(5)],
    thorough=[('h_c26', dict(cmd=c, n=2, times=3, hash0=1), 200) for c in range(5)] + [('h_c26', dict(cmd=c, n=3, mode=m, hash0=1), 900) for c, m in ((0, 0), (1, 0), (2, 1), (3, 9), (4, 9))] + [('h_c26', dict(cmd=c, parse=1, hash0=1), 30) for c in range(5)],
    bounds='the API crate as compiled (its wasm32 guard removed) with the option types of its own configuration, against the command\'s analyses and JSON output: every method once or twice, every graph of 2 items (3 in thorough; for monos and diff every item of any size), each option left out or set to any value; and two parsed modules',
    outside='the binding code that wasm-bindgen generates; 32-bit word size; more items')
