"""Child process: runs harness functions of a shared library natively; buffers end (or begin) at guard pages."""
import ctypes, sys, json, mmap
libc = ctypes.CDLL(None, use_errno=True)
libc.mmap.restype = ctypes.c_void_p
libc.mmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
libc.mprotect.argtypes = [ctypes.c_void_p, ctypes.c_size_t, ctypes.c_int]
libc.munmap.argtypes = [ctypes.c_void_p, ctypes.c_size_t]
libc.free.argtypes = [ctypes.c_void_p]
so = ctypes.CDLL(sys.argv[1])
so.vf_log_ptr.restype = ctypes.c_void_p
so.vf_log_len.restype = ctypes.c_size_t
so.vf_set_poison.argtypes = [ctypes.c_ubyte]
PG = 4096


def run(req):
    maps = []
    args = []
    bufs = []
    so.vf_log_reset()
    so.vf_set_poison(req['poison'])
    for p in req['params']:
        if p[0] == 'int':
            args.append(ctypes.c_size_t(p[1]))
            continue
        if p[0] == 'sym':
            _, w, n, vals, mut, near = p
            size = n * w
            pages = (size + PG - 1) // PG * PG + PG
            base = libc.mmap(None, pages + 2 * PG, 3, 0x4022, -1, 0)
            if base in (None, ctypes.c_void_p(-1).value):
                return dict(kind='nomem')
            maps.append((base, pages + 2 * PG))
            lo = base + PG
            a = lo + pages - size if req['side'] == 'end' else lo
            for k, v in vals.items():
                ctypes.memmove(a + int(k) * w, v.to_bytes(w, 'little'), w)
            libc.mprotect(base, PG, 0)
            libc.mprotect(lo + pages, PG, 0)
            args.append(ctypes.c_void_p(a))
            bufs.append(('sym', w, n, a, lo, pages, (vals, mut, near)))
            continue
        kind, w, vals = p
        n = w * len(vals)
        pages = (n + PG - 1) // PG * PG + PG
        base = libc.mmap(None, pages + 2 * PG, 3, 0x22, -1, 0)
        maps.append((base, pages + 2 * PG))
        data = b''.join(v.to_bytes(w, 'little') for v in vals)
        lo = base + PG
        ctypes.memset(lo, 0x5C, pages)
        a = lo + pages - n if req['side'] == 'end' else lo
        ctypes.memmove(a, data, n)
        libc.mprotect(base, PG, 0)
        libc.mprotect(lo + pages, PG, 0)
        args.append(ctypes.c_void_p(a))
        bufs.append((kind, w, len(vals), a, lo, pages, data))
    f = getattr(so, req['fn'])
    f.restype = ctypes.c_size_t
    ret = f(*args)
    out = []
    over = None
    for k, (kind, w, n, a, lo, pages, data) in enumerate(bufs):
        if kind == 'sym':
            vals, mut, near = data
            d = {}
            for i in near:
                v = int.from_bytes(ctypes.string_at(a + i * w, w), 'little')
                d[str(i)] = v
                if not mut and v != vals.get(str(i), 0):
                    over = 'number %d (read-only)' % k
            gap = (lo + pages - a - n * w) if req['side'] == 'start' else (a - lo)
            z = ctypes.string_at(a + n * w if req['side'] == 'start' else lo, gap)
            if z != bytes(gap):
                over = 'number %d' % k
            out.append(d)
            continue
        whole = ctypes.string_at(lo, pages)
        off = a - lo
        if whole[:off] != b'\x5c' * off or whole[off + n * w:] != b'\x5c' * (pages - off - n * w):
            over = 'number %d' % k
        b = whole[off:off + n * w]
        if kind == 'in' and b != data:
            over = 'number %d (read-only)' % k
        out.append([int.from_bytes(b[i * w:i * w + w], 'little') for i in range(n)])
    L = ctypes.string_at(so.vf_log_ptr(), so.vf_log_len())
    log = []
    i = 0
    while i < len(L):
        t = int.from_bytes(L[i:i + 4], 'little')
        n = int.from_bytes(L[i + 4:i + 8], 'little')
        log.append([t, L[i + 8:i + 8 + n].hex()])
        i += 8 + n
    for b, n in maps:
        libc.munmap(b, n)
    return dict(kind='ret', ret=ret, bufs=out, log=log, overrun=over)


def plant(name):
    """a breakpoint instruction at the start of the function name of the library"""
    import subprocess
    out = subprocess.run(['nm', sys.argv[1]], stdout=subprocess.PIPE, text=True).stdout
    syms = {l.split()[2]: int(l.split()[0], 16) for l in out.splitlines() if len(l.split()) == 3}
    if name not in syms:
        return False
    a = ctypes.cast(so.vf_log_ptr, ctypes.c_void_p).value - syms['vf_log_ptr'] + syms[name]
    libc.mprotect(a & -PG, 2 * PG, 7)
    ctypes.memset(a, 0xCC, 1)
    return True


for line in sys.stdin:
    q = json.loads(line)
    if 'trap' in q and not plant(q['trap']):
        sys.stdout.write(json.dumps(dict(kind='nosym')) + '\n')
        sys.stdout.flush()
        continue
    r = run(json.loads(line))
    sys.stdout.write(json.dumps(r) + '\n')
    sys.stdout.flush()
