"""dev: the planted bugs."""
A='analyze/analyses/'
MONO=r'''
def mod(names, sizes, **k):
    fs = [body(pad=n) for n in sizes]
    return module(funcs=fs, names=dict(enumerate(names)), **k)
'''
BUGS={
'c10-data-summary': dict(property='C10',
 needs='a module with more unreferenced data segments than the garbage limit, JSON output',
 breaks='the JSON garbage row that sums up the potential false-positive data segments only adds the segments up to the row limit',
 edits=[(A+'garbage.rs','''            let size: u32 = self.data_segments.iter().map(|&id| items[id].size()).sum();
            let size_percent = f64::from(size) / f64::from(items.size()) * 100.0;

            let mut obj''','''            let size: u32 = self
                .data_segments
                .iter()
                .take(self.limit)
                .map(|&id| items[id].size())
                .sum();
            let size_percent = f64::from(size) / f64::from(items.size()) * 100.0;

            let mut obj''')],
 demo=r'''
with Run() as r:
    d = [b'\0\x41' + s(100 * i) + b'\x0b' + st('x' * (i + 1)) for i in range(4)]
    p = r.file('a.wasm', module(funcs=[body()], memories=[b'\0\1'], datas=d))
    for n in (10, 4, 3, 1):
        rows = [x for x in r.json('garbage', p, '-n', n) if 'false-positive' in x['name']]
        need(len(rows) == 1 and rows[0]['bytes'] == sum(len(x) for x in d), (n, rows))
'''),
'c13-meta-name': dict(property='C13',
 needs='a function whose name is that of the meta root item',
 breaks='the top report leaves out every item named <meta root>, also a real function with that name',
 edits=[(A+'top.rs','''.filter(|item| item.id() != items.meta_root())''','''.filter(|item| item.name() != items[items.meta_root()].name())''')],
 demo=MONO+r'''
with Run() as r:
    p = r.file('a.wasm', mod(['f', '<meta root>'], [3, 40]))
    rows = r.json('top', p)
    need([x['shallow_size'] for x in rows if x['name'] == '<meta root>'] == [43 + 1], rows)
    need(sum(x['shallow_size'] for x in rows) == len(open(p, 'rb').read()), 'sizes do not add up')
'''),
'c14-rows-per-item': dict(property='C14',
 needs='several requested items and a row limit that the first ones already use up',
 breaks='the row limit of the text dominators report counts anew for every requested item',
 edits=[(A+'dominators/emit.rs','''        let mut row = 0 as u32;

''',''),(A+'dominators/emit.rs','''            let start_depth = if *id == items.meta_root() { 0 } else { 1 };
''','''            let start_depth = if *id == items.meta_root() { 0 } else { 1 };
            let mut row = 0 as u32;
''')],
 demo=r'''
with Run() as r:
    fs = [body(call(1)), body(), body(call(3)), body()]
    p = r.file('a.wasm', module(funcs=fs, exports=[('a', 0, 0), ('b', 0, 2)], names={0: 'f', 1: 'g', 2: 'h', 3: 'i'}))
    for n in (1, 2, 3, 4):
        rows = r.text('dominators', p, 'f', 'h', '-r', n).splitlines()[2:]
        need(len(rows) == n, (n, rows))
'''),
'c15-csv-limit': dict(property='C15',
 needs='CSV output, and an item two levels up a chain with more callers than the row limit',
 breaks='the CSV paths report applies the row limit per item only to the first level of callers',
 edits=[(A+'paths/paths_emit.rs','''        let path = get_path(entry);
''','''        let path = get_path(entry);
        // The limit is about the item that was asked for.
        let listed = if depth == 0 {
            paths
        } else {
            entry.children.len()
        };
'''),(A+'paths/paths_emit.rs','''            let children_iter = entry
                .children
                .iter()
                .take(paths)
                .flat_map(move |child_entry| {
                    process_entry(child_entry, depth + 1, paths, items, opts)
                });
            Box::new(record_iter.chain''','''            let children_iter = entry
                .children
                .iter()
                .take(listed)
                .flat_map(move |child_entry| {
                    process_entry(child_entry, depth + 1, paths, items, opts)
                });
            Box::new(record_iter.chain''')],
 demo=r'''
with Run() as r:
    fs = [body(), body(call(0)), body(call(1)), body(call(1)), body(call(1))]
    p = r.file('a.wasm', module(funcs=fs, names=dict(enumerate('abcde'))))
    for n, want in ((1, 'abc'), (2, 'abcd'), (10, 'abcde')):
        rows = [x['Name'] for x in r.csv('paths', p, 'a', '-r', n)]
        need(rows == list(want), (n, rows))
'''),
'c16-bloat-rounding': dict(property='C16',
 needs='a generic whose instantiations sizes do not divide evenly and where the average savings are the lesser value',
 breaks='the average savings of a generic are computed without rounding the average size down first, so the approximate bloat is off by some bytes',
 edits=[(A+'monos/mod.rs','''        let size_per_inst = total_size / inst_cnt;
        let avg_savings = size_per_inst * (inst_cnt - 1);
''','''        let avg_savings =
            (u64::from(total_size) * u64::from(inst_cnt - 1) / u64::from(inst_cnt)) as u32;
''')],
 demo=MONO+r'''
with Run() as r:
    names = ['g<a>', 'g<b>', 'g<c>', 'h<a>', 'h<b>']
    pads = [11, 11, 10, 30, 20]
    p = r.file('a.wasm', mod(names, pads))
    size = lambda x: x + 4
    for row in r.json('monos', p):
        sz = [size(x) for n, x in zip(names, pads) if n.startswith(row['generic'] + '<')]
        if sz:
            want = min(sum(sz) // len(sz) * (len(sz) - 1), sum(sz) - max(sz))
            need(row['approximate_monomorphization_bloat_bytes'] == want and row['total_size'] == sum(sz), (row, want))
'''),
'c17-cancelling-remainder': dict(property='C17',
 needs='rows cut off by the limit whose deltas cancel out',
 breaks='the diff remainder row is missing when the deltas of the rows cut off add up to zero',
 edits=[(A+'diff.rs','''    if rem_cnt > 0 {''','''    if rem_delta != 0 {''')],
 demo=MONO+r'''
with Run() as r:
    a = r.file('a.wasm', mod(['f', 'g', 'h'], [50, 10, 20]))
    b = r.file('b.wasm', mod(['f', 'g', 'h'], [20, 20, 10]))
    for n, cut in ((0, 3), (1, 2), (2, 1), (3, 0)):
        rows = [x['name'] for x in r.json('diff', a, b, '-n', n)]
        more = [x for x in rows if x.startswith('... and ')]
        need(more == (['... and %d more.' % cut] if cut else []), (n, rows))
'''),
'c18-diff-trim': dict(property='C18',
 needs='an item whose name begins or ends with white space',
 breaks='the diff report does not find items whose names begin or end with white space when they are asked for by name',
 edits=[(A+'diff.rs','''names.filter(|name| item_names.contains(&name)).collect()''','''names
                .filter(|name| item_names.contains(&name.trim().to_string()))
                .collect()''')],
 demo=MONO+r'''
with Run() as r:
    a = r.file('a.wasm', mod(['f', ' g', 'h '], [50, 10, 20]))
    b = r.file('b.wasm', mod(['f', ' g', 'h '], [20, 20, 17]))
    for n, d in (('f', -30), (' g', 10), ('h ', -3)):
        rows = r.json('diff', a, b, n)
        need([(x['name'], x['delta_bytes']) for x in rows][:1] == [(n, d)], rows)
'''),
'c20-diff-lines': dict(property='C20',
 needs='a changed item whose name has a line break in it, CSV output of diff',
 breaks='line breaks in names come out as spaces in the CSV diff',
 edits=[(A+'diff.rs','''state.serialize_field("Item", &self.name)?;''','''state.serialize_field("Item", &self.name.replace('\\n', " "))?;''')],
 demo=MONO+r'''
with Run() as r:
    names = ['f', 'a,b', 'say "hi", x', 'back\\slash', 'line\nbreak']
    a = r.file('a.wasm', mod(names, [50, 40, 30, 20, 10]))
    b = r.file('b.wasm', mod(names, [1, 2, 3, 4, 5]))
    rows = [x['Item'] for x in r.csv('diff', a, b)]
    need(rows[:5] == names, rows)
'''),
'c21-trailing-space': dict(property='C21',
 needs='an item whose name ends with white space',
 breaks='text tables drop white space at the end of the cells in the last column',
 edits=[('analyze/formats/table.rs','''                    Align::Left => {
                        write!(f, "{}", x)?;
''','''                    Align::Left => {
                        // No trailing white space in the output.
                        write!(f, "{}", if i == last { x.trim_end() } else { x })?;
''')],
 demo=MONO+r'''
with Run() as r:
    p = r.file('a.wasm', mod(['f', 'g ', 'h', 'i\t'], [5, 50, 16000, 6]))
    rows = [x.split(' \u250a ')[-1] for x in r.text('top', p).split('\n')]
    need({'f', 'g ', 'h', 'i\t'} <= set(rows), rows)
'''),
'c12-arrow': dict(property='C12',
 needs='a name with a > before its first <, such as an operator->',
 breaks='a generic function whose name has an arrow before the type arguments is not recognised as a generic',
 edits=[('ir/ir.rs','''        let close_bracket = match demangled.char_indices().rev().find(|&(_, ch)| ch == '>') {''','''        let close_bracket = match demangled.char_indices().find(|&(_, ch)| ch == '>') {''')],
 demo=MONO+r'''
with Run() as r:
    p = r.file('a.wasm', mod(['operator->x<int>', 'operator->x<char>', 'v<int>', 'v<v<int>>'], [5, 6, 7, 8]))
    rows = {x['generic'] for x in r.json('monos', p)}
    need({'operator->x', 'v'} <= rows, rows)
'''),
'c08-unreferenced-roots': dict(property='C08',
 needs='a root that another item refers to, such as an exported table or roots that refer to each other',
 breaks='roots that something else refers to are not connected to the meta root, so that the dominator of such a root, or its reachability, is wrong',
 edits=[('ir/ir.rs','''        self.edges.insert(meta_root_id, self.roots.clone());''','''        // Roots that something else leads to need no edge of their own.
        let referenced: BTreeSet<Id> = self.edges.values().flatten().cloned().collect();
        let tops = self.roots.difference(&referenced).cloned().collect();
        self.edges.insert(meta_root_id, tops);''')],
 demo=r'''
with Run() as r:
    p = r.file('a.wasm', module(funcs=[body()], tables=[b'\x70\0\1'], exports=[('t', 1, 0)]))
    rows = r.csv('dominators', p)
    t = [x for x in rows if x['Name'] == 'table[0]']
    top = [x for x in rows if x['Name'] == '<meta root>']
    need(len(t) == 1 and t[0]['ImmediateDominator'] == top[0]['Id'], rows)
'''),

'c01-type-index-byte': dict(property='C01',
 needs='a function whose type index takes more than one byte (non-minimal or above 127)',
 breaks='a function item counts one byte for its function section entry, whatever that entry really takes',
 edits=[('parser/wasm_parse/mod.rs','size + func.size(), code)','size + func.size().min(1), code)')],
 demo=r'''
with Run() as r:
    types = [b'\x60' + vec([b'\x7f'] * (i % 7)) + vec([b'\x7e'] * (i // 7)) for i in range(140)]
    p = r.file('a.wasm', module(types=types, funcs=[body(), body(), body()], ftypes=[5, 127, 128], names={0: 'a', 1: 'b', 2: 'c'}))
    z = {x['name']: x['shallow_size'] for x in r.json('top', p)}
    need((z['a'], z['b'], z['c']) == (len(body()) + 1, len(body()) + 1, len(body()) + 2), (z['a'], z['b'], z['c']))
'''),
'c02-tag-imports': dict(property='C02',
 needs='a module that imports an exception tag and has a name section',
 breaks='imported tags are counted as imported functions, so function names are shifted',
 edits=[('parser/wasm_parse/mod.rs','''                if let wasmparser::ImportSectionEntryType::Function(_) = import?.ty {
                    imported_functions += 1;
                }''','''                match import?.ty {
                    wasmparser::ImportSectionEntryType::Table(_)
                    | wasmparser::ImportSectionEntryType::Memory(_)
                    | wasmparser::ImportSectionEntryType::Global(_) => {}
                    _ => imported_functions += 1,
                }''')],
 demo=r'''
with Run() as r:
    im = [st('m') + st('f') + b'\0\0', st('m') + st('t') + b'\4\0\0', st('m') + st('g') + b'\3\x7f\0']
    p = r.file('a.wasm', module(imports=im, funcs=[body(pad=1), body(pad=2)], names={0: 'imp', 1: 'one', 2: 'two'}))
    z = {x['name']: x['shallow_size'] for x in r.json('top', p)}
    need(z.get('one') == len(body(pad=1)) + 1 and z.get('two') == len(body(pad=2)) + 1, z)
'''),
'c03-element-tables': dict(property='C03',
 needs='an active element segment for a table other than the first',
 breaks='only active element segments of table 0 get an edge from their table',
 edits=[('parser/wasm_parse/mod.rs','''                wasmparser::ElementKind::Active { table_index, .. } => {''','''                wasmparser::ElementKind::Active { table_index, .. } if table_index == 0 => {'''),
        ('parser/wasm_parse/mod.rs','''                wasmparser::ElementKind::Declared => {}
                wasmparser::ElementKind::Passive => {}''','''                _ => {}''')],
 demo=r'''
with Run() as r:
    el = [b'\0\x41\0\x0b' + vec([b'\0']), b'\2\1\x41\0\x0b\0' + vec([b'\1'])]
    p = r.file('a.wasm', module(funcs=[body(), body()], tables=[b'\x70\0\1', b'\x70\0\1'], elems=el, names={0: 'f', 1: 'g'}))
    rows = [x['name'] for x in r.json('garbage', p)]
    need('f' not in rows and 'g' not in rows and 'elem[1]' not in rows, rows)
'''),
'c04-wide-load': dict(property='C04',
 needs='a constant address read with i64.load32_u',
 breaks='i64.load32_u from a constant address is no longer taken for a reference to the data segment',
 edits=[('parser/wasm_parse/mod.rs','''                    | Operator::I64Load32U { memarg }
''','')],
 demo=r'''
with Run() as r:
    d = [b'\0\x41' + s(64) + b'\x0b' + st('abcd'), b'\0\x41' + s(128) + b'\x0b' + st('efgh')]
    for op in range(0x28, 0x36):
        f = body(b'\x41' + s(120) + bytes([op, 0, 8]) + b'\x1a')
        p = r.file('a.wasm', module(funcs=[f], memories=[b'\0\1'], exports=[('e', 0, 0)], datas=d))
        rows = r.text('paths', p, 'data[1]')
        need('code[0]' in rows, (hex(op), rows))
'''),
'c05-block-type': dict(property='C05',
 needs='a malformed module with a global of the block type 0x40',
 breaks='a global of a type that is no value type makes the parser panic',
 edits=[('parser/wasm_parse/mod.rs','''        Type::Func | Type::EmptyBlockType => "?",''','''        Type::Func | Type::EmptyBlockType => unreachable!("not a value type"),''')],
 demo=r'''
with Run() as r:
    for t in (0x40, 0x60, 0x7f, 0x70):
        p = r.file('a.wasm', module(funcs=[body()], globals=[bytes([t]) + b'\0\x41\0\x0b']))
        q = r.tw('top', p, ok=False)
        need(q.returncode in (0, 1) and b'panicked' not in q.stderr, (hex(t), q.returncode, q.stderr[-200:]))
'''),
'c05-custom-count': dict(property='C05',
 needs='a name section whose function-name count is huge and larger than what follows',
 breaks='an entry of the function-name map that cannot be read no longer ends the map, so that a bogus count keeps the parser busy (practically) for ever',
 edits=[('parser/wasm_parse/mod.rs','''                        for _ in 0..map.get_count() {
                            let naming = map.read()?;
                            names
                                .function_names
                                .insert(naming.index as usize, naming.name);
                        }''','''                        for _ in 0..map.get_count() {
                            let naming = match map.read() {
                                Ok(naming) => naming,
                                Err(_) => continue,
                            };
                            names
                                .function_names
                                .insert(naming.index as usize, naming.name);
                        }''')],
 demo=r'''
with Run() as r:
    for n in (0xffffffff,):
        c = u(n) + u(0) + st('f')
        p = r.file('a.wasm', module(funcs=[body()], customs=[('name', b'\1' + u(len(c)) + c)]))
        try: q = r.tw('top', p, ok=False)
        except subprocess.TimeoutExpired: need(False, 'no result')
        need(q.returncode == 1, (n, q.returncode))
'''),
}
