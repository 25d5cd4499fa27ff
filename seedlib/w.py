"""A small WebAssembly module writer for the demonstrations, and a way to run the command."""
import os, subprocess, sys, tempfile, shutil, json, csv, io
TW = os.path.join(os.getcwd(), 'target/debug/twiggy')
def u(n):
    o = b''
    while True:
        b = n & 127; n >>= 7
        if n: o += bytes([b | 128])
        else: return o + bytes([b])
def s(n):
    o = b''
    while True:
        b = n & 127; n >>= 7
        if (n == 0 and not b & 64) or (n == -1 and b & 64): return o + bytes([b])
        o += bytes([b | 128])
def st(x):
    x = x if isinstance(x, bytes) else x.encode()
    return u(len(x)) + x
def vec(l): return u(len(l)) + b''.join(l)
def sec(i, body): return bytes([i]) + u(len(body)) + body
def call(i): return b'\x10' + u(i)
def load(a, off=0): return b'\x41' + s(a) + b'\x28\x02' + u(off) + b'\x1a'
def body(code=b'', pad=0, locs=()):
    b = vec([u(n) + bytes([t]) for n, t in locs]) + code + b'\x01' * pad + b'\x0b'
    return u(len(b)) + b
def module(types=(b'\x60\0\0',), imports=(), funcs=(), tables=(), memories=(), globals=(), exports=(), start=None, elems=(), datas=(), names=None, datanames=None, customs=(), ftypes=None):
    """funcs: bodies; exports: (name, kind, index); elems/datas: raw entries; names: {index: name}"""
    m = b'\0asm\1\0\0\0'
    if types: m += sec(1, vec(list(types)))
    if imports: m += sec(2, vec(list(imports)))
    if funcs: m += sec(3, vec([u((ftypes or [0] * len(funcs))[i]) for i in range(len(funcs))]))
    if tables: m += sec(4, vec(list(tables)))
    if memories: m += sec(5, vec(list(memories)))
    if globals: m += sec(6, vec(list(globals)))
    if exports: m += sec(7, vec([st(n) + bytes([k]) + u(i) for n, k, i in exports]))
    if start is not None: m += sec(8, u(start))
    if elems: m += sec(9, vec(list(elems)))
    if funcs: m += sec(10, vec(list(funcs)))
    if datas: m += sec(11, vec(list(datas)))
    if names is not None or datanames is not None:
        n = st('name')
        if names is not None: n += sec(1, vec([u(i) + st(x) for i, x in sorted(names.items())]))
        if datanames is not None: n += sec(9, vec([u(i) + st(x) for i, x in sorted(datanames.items())]))
        m += sec(0, n)
    for n, d in customs: m += sec(0, st(n) + d)
    return m
class Run:
    def __init__(self): self.d = tempfile.mkdtemp(prefix='demo')
    def __enter__(self): return self
    def __exit__(self, *a): shutil.rmtree(self.d)
    def file(self, name, data):
        p = os.path.join(self.d, name)
        open(p, 'wb').write(data)
        return p
    def tw(self, *a, ok=True):
        p = subprocess.run([TW] + [str(x) for x in a], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100)
        if ok and p.returncode: raise SystemExit('twiggy failed: %r %s' % (a, p.stderr.decode(errors='replace')[-300:]))
        return p
    def text(self, *a): return self.tw(*a).stdout.decode()
    def json(self, *a): return json.loads(self.tw(*a, '-f', 'json').stdout.decode())
    def csv(self, *a): return list(csv.DictReader(io.StringIO(self.tw(*a, '-f', 'csv').stdout.decode(), newline='')))
def need(c, m):
    if not c:
        print('DEMO FAILED:', m); sys.exit(1)
