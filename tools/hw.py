"""What the library's operations do on machines other than AArch64, from the instructions executed: the guest program
(crate `bare`) makes each call under qemu or in the harness's emulator, every instruction and the registers before it
are logged, and the accesses to the atomic and the barriers among them are given to spec/HwOrder.tla."""
import os, re, struct, subprocess, tempfile
import litmus as L, pa

TYPES = ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "u128", "i128", "usize", "isize", "bool", "ptr0", "ptr1", "ptr3", "ptr8", "ptr24", "ptr4096", "f32", "f64"]
OPS = "load store swap cas casw fadd fsub fand fnand for fxor fmax fmin fnot fneg add sub and or xor not neg bset bclr btog upd fabs padd psub badd bsub".split()
ORDS = ['rlx', 'acq', 'rel', 'ar', 'sc']
def arch(run):
    g = run[2:].split('@')[0]
    return 'power' if g.startswith('ppc') else 'riscv' if g.startswith('rv') else 'tso'
TOOLS = '/root/.rustup/toolchains/nightly-x86_64-unknown-linux-gnu/lib/rustlib/x86_64-unknown-linux-gnu/bin/'

def symbols(exe):
    out = subprocess.run([TOOLS + 'llvm-nm', '-n', '--defined-only', exe], stdout=subprocess.PIPE, text=True, check=True).stdout
    return [(int(a, 16), n, k) for a, k, n in (l.split(None, 2) for l in out.splitlines() if len(l.split()) == 3)]

def listing(exe, feats):
    """pc -> text of the instruction there."""
    out = subprocess.run([TOOLS + 'llvm-objdump', '-d', '--no-show-raw-insn'] + feats + [exe], stdout=subprocess.PIPE, text=True, check=True).stdout
    d, lock = {}, None
    for m in re.finditer(r'^\s*([0-9a-f]+):\s+(.*)$', out, re.M):
        t = ' '.join(m[2].split('#')[0].split())
        pc = int(m[1], 16)
        if t in ('lock', 'rep', 'repne', 'data16'):
            lock = (pc, t)
            continue
        if lock:
            d[lock[0]] = lock[1] + ' ' + t
            lock = None
        d[pc] = t
    return d

class Unknown(Exception):
    pass

# Each decoder: text, registers -> None or a dict: c: 'ld' 'st' 'amo' 'cas' 'ldx' 'stx' 'rw' (not atomic) 'F'; addr, n;
# m: marks; for 'cas', ok(before, after); for 'stx', ok(after).
def power(t, r, ctx):
    op, _, rest = t.partition(' ')
    a = [x.strip() for x in rest.split(',')]
    base = op.rstrip('.')
    if op in ('sync', 'lwsync', 'hwsync', 'isync', 'ptesync'):
        m = {'hwsync': 'sync', 'ptesync': 'sync'}.get(op, op)
        if m == 'isync' and not ctx.get('ctl'):
            return None
        return {'c': 'F', 'm': m}
    T = ctx.setdefault('taint', set())
    g = lambda n: r['G%d' % int(n)]
    mem = None
    k = re.fullmatch(r'(?:(l)|(st))(b|h|w|d|q|ha|wa|hz|wz|bz)(ar|c)?(br)?(u?)(x?)\.?', base if not base.startswith('st') else base)
    if k and base not in ('li', 'lis', 'la'):
        size = {'b': 1, 'h': 2, 'w': 4, 'd': 8, 'q': 16}[k[3][0]]
        d = re.fullmatch(r'(-?\d+)\((\d+)\)', a[1]) if len(a) > 1 else None
        addr = (int(d[1]) + (g(d[2]) if int(d[2]) else 0)) if d else (g(a[1]) if int(a[1]) else 0) + g(a[2])
        mem = {'addr': addr & MASK, 'n': size}
        if k[4] == 'ar': mem['c'] = 'ldx'
        elif k[4] == 'c': mem.update(c='stx', ok=lambda x: x['CR'] >> 28 & 2 != 0)
        else: mem['c'] = 'ld' if k[1] else 'st'
        if mem['c'] in ('ld', 'ldx'):
            regs = {'r' + a[0]} | ({'r%d' % (int(a[0]) + 1)} if size == 16 else set())
            if ctx['hit'](mem): T |= regs
            else: T -= regs
        if mem['c'] == 'stx' and ctx['hit'](mem):
            T.add('c0')
        return mem
    if re.match(r'(l|st)(v|xv|f[sd]|sw|mw)', base):
        d = re.fullmatch(r'(-?\d+)\((\d+)\)', a[1]) if len(a) > 1 else None
        addr = (int(d[1]) + (g(d[2]) if int(d[2]) else 0)) if d else (g(a[1]) if int(a[1]) else 0) + g(a[2])
        return {'addr': addr & MASK, 'n': 16, 'c': 'unknown'}
    # how what was read flows
    src = lambda xs: any('r' + x in T or 'c' + x in T for x in xs if x.isdigit())
    if base.startswith('cmp'):
        f, xs = (a[0], a[1:]) if len(a) == 3 else ('0', a)
        s = any('r' + x in T for x in xs)
        (T.add if s else T.discard)('c' + f)
        return None
    if base in ('bt', 'bf', 'bc', 'btlr', 'bflr', 'bctlr', 'beq', 'bne', 'blt', 'bgt', 'ble', 'bge', 'beqlr', 'bnelr', 'bt+', 'bf+', 'bt-', 'bf-') or re.match(r'b(t|f|eq|ne|lt|gt|le|ge)(lr)?[+-]?$', op):
        f = '0'
        if a and a[0].isdigit():
            f = str(int(a[0]) // 4) if re.match(r'b[tf]', base) else a[0]
        elif a and a[0].startswith('cr'):
            f = a[0][2:]
        if 'c' + f in T:
            ctx['ctl'] = True
        return None
    if a and a[0].isdigit() and not base.startswith(('b', 'mt', 'tw', 'td')):
        s = any('r' + x in T for x in a[1:] if x.isdigit())
        (T.add if s else T.discard)('r' + a[0])
        if op.endswith('.'):
            (T.add if s else T.discard)('c0')
    return None

S390 = {}
for _n, _c, _ops in [(1, 'ld', 'ic icy llc lb llgc lgb cli cliy tm tmy'), (2, 'ld', 'lh lhy lgh llh llgh ch cgh ah sh chhsi clhhsi cghsi'), (4, 'ld', 'l ly lt lgf llgf ltgf c cy cl cly clgf cgf a ay al aly s sy sl sly n ny o oy x xy chsi clfhsi le ley'),
                     (8, 'ld', 'lg ltg cg clg ag alg sg slg ng og xg alcg slbg cghsi clghsi lrvg ld ldy'), (16, 'ld', 'lpq vl'), (1, 'st', 'stc stcy mvi mviy'), (2, 'st', 'sth sthy mvhhi'), (4, 'st', 'st sty mvhi ste stey'), (8, 'st', 'stg mvghi strvg std stdy'), (16, 'st', 'stpq vst'),
                     (4, 'cas', 'cs csy'), (8, 'cas', 'csg cds cdsy'), (16, 'cas', 'cdsg'), (4, 'amo', 'laa laal lan lao lax'), (8, 'amo', 'laag laalg lang laog laxg'), (1, 'amo', 'ni niy oi oiy xi xiy'), (4, 'rw', 'asi alsi'), (8, 'rw', 'agsi algsi')]:
    for _o in _ops.split():
        S390[_o] = (_n, _c)
def z(t, r, ctx):
    op, _, rest = t.partition(' ')
    if re.fullmatch(r'(bcr 1[45], ?|br |bnor )(%r0|0)', t):       # a serialization
        return {'c': 'F', 'm': 'sy'}
    m = re.search(r'(-?\d+)\(([^()]*)\)', rest)
    if not m or op.startswith(('la', 'lay')) and op in ('la', 'lay'):
        return None
    if op.startswith(('b', 'sl', 'sr', 'rll', 'rx', 'risb')) and op not in S390 or op in ('stmg', 'lmg', 'j', 'brasl'):
        if op in ('stmg', 'lmg'):
            return None                    # saved registers
        return None
    parts = m[2].split(',')
    if any('%' not in x for x in parts):
        if op in ('mvc', 'xc', 'oc', 'nc', 'clc'):
            n = int(next(x for x in parts if '%' not in x))
            out = []
            for k in re.finditer(r'(-?\d+)\(([^()]*)\)', rest):
                b = [x for x in k[2].split(',') if '%' in x]
                out.append((int(k[1]) + sum(r['R%d' % int(x.strip()[2:])] for x in b)) & MASK)
            return {'c': 'unknown', 'addr': min(out), 'n': n} if not any(ctx['hit']({'addr': x, 'n': n}) for x in out) else {'c': 'unknown', 'addr': next(x for x in out if ctx['hit']({'addr': x, 'n': n})), 'n': n}
        return None
    addr = (int(m[1]) + sum(r['R%d' % int(x.strip()[2:])] for x in parts if x.strip() != '%r0')) & MASK
    n, c = S390.get(op, (8, 'unknown'))
    d = {'c': c, 'addr': addr, 'n': n, 'm': 'X' if c in ('cas', 'amo') else ''}
    if c == 'cas':
        k = int(rest.split(',')[0].strip()[2:])
        regs = ['R%d' % k] + (['R%d' % (k + 1)] if op.startswith('cds') else [])
        w = MASK if op.endswith('g') else 0xffffffff
        d['ok'] = lambda x, y: all((x[i] ^ y[i]) & w == 0 for i in regs)
    return d

XR = {}
for _i, _n in enumerate('ax cx dx bx sp bp si di'.split()):
    XR['r' + _n] = XR['e' + _n] = 'R' + _n.upper()
for _i in range(8, 16):
    XR['r%d' % _i] = 'R%d' % _i
SUF = {'b': 1, 'w': 2, 'l': 4, 'q': 8}
def x86(t, r, ctx):
    if t == 'mfence' or re.match(r'lock or[lq] \$0x0, (-?0x[0-9a-f]+)?\(%[er]sp\)', t):
        return {'c': 'F', 'm': 'sy'}
    lock = t.startswith('lock ')
    if lock: t = t[5:]
    op, _, rest = t.partition(' ')
    if op.startswith(('lea', 'nop', 'call', 'jmp', 'ud', 'prefetch', 'push', 'pop', 'ret')):
        return None
    m = re.search(r'(-?0x[0-9a-f]+)?\((%\w+)?(?:,\s*(%\w+)(?:,\s*(\d))?)?\)', rest)
    if not m or m[2] == '%rip':
        return None
    g = lambda x: r[XR[x[1:]]]
    addr = ((int(m[1], 16) if m[1] else 0) + (g(m[2]) if m[2] else 0) + (g(m[3]) * int(m[4] or 1) if m[3] else 0)) & ctx['mask']
    dest = m.end() == len(rest)                      # the memory operand is the last, the destination
    n, c = 16, 'unknown'
    if op in ('cmpxchg16b', 'cmpxchg8b'):
        n, c = (16, 'cas') if op == 'cmpxchg16b' else (8, 'cas')
    elif op[:-1] == 'cmpxchg': n, c = SUF[op[-1]], 'cas'
    elif op[:-1] == 'xchg': n, c, lock = SUF[op[-1]], 'amo', True
    elif op in ('vmovdqa', 'movdqa', 'movaps', 'vmovaps', 'movups', 'movdqu', 'vmovups', 'vmovdqu'): n, c = (32 if 'ymm' in rest else 16), 'st' if dest else 'ld'
    elif op in ('movq', 'vmovq', 'movlps', 'movsd', 'vmovlps', 'vmovsd', 'movlpd'): n, c = 8, 'st' if dest else 'ld'
    elif op in ('movd', 'vmovd', 'movss', 'vmovss'): n, c = 4, 'st' if dest else 'ld'
    elif op in ('fildll', 'fldl'): n, c = 8, 'ld'
    elif op in ('fistpll', 'fstpl'): n, c = 8, 'st'
    elif op[:-1] in ('mov', 'movabs'): n, c = SUF[op[-1]], 'st' if dest else 'ld'
    elif op[:4] in ('movz', 'movs') and len(op) == 6: n, c = SUF[op[4]], 'ld'
    elif op[:-1] in ('cmp', 'test', 'bt'): n, c = SUF[op[-1]], 'ld'
    elif op[:-1] in ('add', 'sub', 'and', 'or', 'xor', 'adc', 'sbb', 'inc', 'dec', 'not', 'neg', 'xadd', 'bts', 'btr', 'btc'):
        n = SUF[op[-1]]
        c = 'ld' if not dest else 'amo' if lock else 'rw'
        if op[:-1] in ('bts', 'btr', 'btc') and not rest.startswith('$'): n = n      # (the library reduces the index first)
    elif op.startswith('cmov'): n, c = 8, 'ld'
    elif op.startswith('set'): n, c = 1, 'st'
    d = {'c': c if c != 'cas' or lock else 'unknown', 'addr': addr, 'n': n, 'm': 'X' if lock else ''}
    if c == 'cas':
        d['ok'] = lambda x, y: y['FL'] & 0x40 != 0
    return d

MASK = (1 << 64) - 1
RV = {'b': 1, 'h': 2, 'w': 4, 'd': 8, 'q': 16}
ABI = 'zero ra sp gp tp t0 t1 t2 s0 s1 a0 a1 a2 a3 a4 a5 a6 a7 s2 s3 s4 s5 s6 s7 s8 s9 s10 s11 t3 t4 t5 t6'.split()
ABIN = {n: i for i, n in enumerate(ABI)}
def riscv(t, r, ctx):
    op, _, rest = t.partition(' ')
    a = [x.strip() for x in rest.split(',')]
    g = lambda x: r['X%d' % ABIN[x]]
    if op == 'fence':
        p, q = (a + ['', ''])[:2] if rest else ('iorw', 'iorw')
        both = lambda s: [y for x, y in (('r', 'R'), ('w', 'W')) if x in s]
        return {'c': 'F', 'm': '', 'before': both(p), 'after': both(q)}
    if op == 'fence.tso':
        return [{'c': 'F', 'm': '', 'before': ['R'], 'after': ['R', 'W']}, {'c': 'F', 'm': '', 'before': ['W'], 'after': ['W']}]
    k = re.fullmatch(r'(amo\w+|lr|sc)\.([bhwdq])(?:\.(\w+))?', op)
    if k:
        addr = g(re.search(r'\((\w+)\)', rest)[1])
        m = ('A' if 'aq' in (k[3] or '') else '') + ('L' if 'rl' in (k[3] or '') else '')
        d = {'addr': addr & ctx['mask'], 'n': RV[k[2]], 'm': m, 'c': {'lr': 'ldx', 'sc': 'stx', 'amocas': 'cas'}.get(k[1], 'amo')}
        i = ABIN[a[0]]
        if d['c'] == 'stx':
            d['ok'] = lambda x: x['X%d' % i] == 0
        if d['c'] == 'cas':
            d['fail'] = m.replace('L', '')           # (nothing is released that is not written)
            w = 8 * min(d['n'], ctx['xlen'] // 8)
            regs = [i] + ([i + 1] if d['n'] > ctx['xlen'] // 8 else [])
            d['ok'] = lambda x, y: all((x['X%d' % j] ^ y['X%d' % j]) & ((1 << w) - 1) == 0 for j in regs if j)
        return d
    k = re.fullmatch(r'(?:c\.)?(l|s)([bhwd])u?(?:sp)?', op)
    if k:
        d = re.search(r'(-?(?:0x)?[0-9a-f]+)?\((\w+)\)', rest)
        return {'c': 'ld' if k[1] == 'l' else 'st', 'addr': (int(d[1] or '0', 0) + g(d[2])) & ctx['mask'], 'n': RV[k[2]], 'm': ''}
    return None

DECODE = {'power': power, 'riscv': riscv}
FEATS = {'rv': ['--mattr=+m,+a,+zacas,+zabha'], 's390': ['--mcpu=z16'], 'ppc': ['--mcpu=pwr10']}

# ----------------------------------------------------------------------------------- the log
def registers(block):
    r = {}
    for l in block:
        if l.startswith('GPR'):
            k = int(l[3:5])
            for i, v in enumerate(l[5:].split()):
                r['G%d' % (k + i)] = int(v, 16)
        elif l.startswith('CR '):
            r['CR'] = int(l.split()[1], 16)
        elif l.startswith(('RIP=', 'EIP=')):
            r['FL'] = int(re.search(r'FL=([0-9a-f]+)', l)[1], 16)
        else:
            for n, v in re.findall(r'\b([RXE][A-Z0-9]+)\s*=\s*([0-9a-f]+)', l):
                r['R' + n[1:] if n[0] == 'E' else 'R%d' % int(n[1:]) if n[0] == 'R' and n[1:].isdigit() else n] = int(v, 16)
    return r
def steps(f):
    pc, block = None, []
    for l in f:
        if l.startswith('Trace '):
            if pc is not None:
                yield pc, (lambda b=block: registers(b))
            pc, block = int(l.split('/', 2)[1], 16), []
        else:
            block.append(l)
    if pc is not None:
        yield pc, (lambda b=block: registers(b))

def shapes(lines, text, start, addr, size, decode, mask, xlen):
    """Yields [event] for each call; size(i) is that of the value of call i."""
    evs, pend, i, ctx = None, None, -1, None
    def finish(d, before, after):
        lo = addr
        n = size(i)
        part = 'all' if d['addr'] <= lo and d['addr'] + d['n'] >= lo + n else '%d+%d' % (d['addr'] - lo, d['n'])
        new = 1 + max([e['x'] for e in evs] + [0])
        def ev(k, m, x=0): evs.append({'k': k, 'm': m, 'x': x, 'part': part, 'i': d['c']})
        c, m = d['c'], d.get('m', '')
        if c == 'ld': ev('R', m)
        elif c == 'st': ev('W', m)
        elif c == 'rw': ev('R', m); ev('W', m)
        elif c == 'ldx': ev('R', m, -1)
        elif c == 'stx':
            if d['ok'](after):
                rd = [e for e in evs if e['k'] == 'R' and e['x'] == -1]
                if rd: rd[-1]['x'] = new
                ev('W', m, new if rd else 0)
        elif c == 'cas':
            ok = d['ok'](before, after)
            ev('R', m, new if ok else 0)
            if ok: ev('W', m, new)
            elif d.get('fail') is not None: evs[-1]['m'] = d['fail']
        elif c == 'amo':
            ev('R', m, new); ev('W', m, new)
        else:
            raise pa.ToolError('what does this do to the value: %s' % d['text'])
    for pc, regs in lines:
        if pend is not None:
            d, before = pend
            pend = None
            finish(d, before, regs())
        if pc == start:
            if evs is not None:
                yield evs
            i += 1
            evs = []
            n = size(i)
            ctx = {'mask': mask, 'xlen': xlen, 'hit': lambda d, n=n: n and d['addr'] < addr + n and d['addr'] + d['n'] > addr}
            continue
        if evs is None:
            continue
        t = text.get(pc)
        if t is None or 'unknown' in t:
            raise pa.ToolError('no instruction at %x' % pc)
        r = None
        try:
            d = decode(t, regs(), ctx)
        except (KeyError, ValueError, IndexError, AttributeError, TypeError) as e:
            raise pa.ToolError('cannot read the instruction %r: %r' % (t, e))
        for d in d if isinstance(d, list) else [d]:
            if d is None:
                continue
            if d['c'] == 'F':
                evs.append(dict({'k': 'F', 'm': d['m'], 'x': 0}, **{k: d[k] for k in ('before', 'after') if k in d}))
            elif ctx['hit'](d):
                d['text'] = t
                pend = (d, regs())
            elif d.get('m') == 'X':              # a locked access of anything else
                evs.append({'k': 'F', 'm': 'sy', 'x': 0})
    if evs is not None:
        yield evs

def record(run, rows):
    """{(0, row number): [event]} and the results, as arm.record's."""
    g = run[2:]
    exe = pa.guest(g)
    how = pa.MACHINES[g][0]
    ar = arch(run)
    xlen = 32 if g.startswith(('rv32', 'i686')) else 64
    mask = (1 << xlen) - 1
    big = how.startswith('qemu!')
    end = 'big' if big else 'little'
    sy = symbols(exe)
    at = {n: a for a, n, k in sy}
    code = [(a, n) for a, n, k in sy if k in 'tT']
    decode = DECODE.get(ar) or (z if g.startswith('s390') else x86)
    text = listing(exe, next((v for k, v in FEATS.items() if g.startswith(k)), []))
    off = 64
    def call(row):
        ty, op, o, f, cur, a, b = row
        x = bytearray(64)
        m = bytearray(192)
        if op == 'fence':
            x[0], x[2] = 100, ORDS.index(o)
        else:
            w = max(1, L.width(ty, 64) // 8)
            x[0], x[1], x[2], x[3], x[5] = TYPES.index(ty), OPS.index(op), ORDS.index(o), ORDS.index(f), off
            an = 4 if op in L.BITS else w
            x[16:16 + an] = (a & ((1 << 8 * an) - 1)).to_bytes(an, end)
            x[32:32 + w] = (b & ((1 << 8 * w) - 1)).to_bytes(w, end)
            m[off:off + w] = (cur & ((1 << 8 * w) - 1)).to_bytes(w, end)
        return b'C' + bytes(x) + bytes(m)
    sizes = [0 if r[1] == 'fence' else max(1, L.width(r[0], 64) // 8) for r in rows]
    # once unrecorded, so that what the processor offers has been found out, then the rows
    first = {}
    for r in rows:
        first.setdefault((r[0], r[1]), r)
    todo = list(first.values()) + list(rows)
    nwarm = len(first)
    with tempfile.TemporaryDirectory(prefix='hw-') as t:
        log = os.path.join(t, 'log')
        os.mkfifo(log)
        if how.startswith('qemu'):
            skip = {'pa_send', 'pa_serve', 'pa_start', '_start', 'pa_again', 'getauxval', 'dlsym'}
            starts = sorted({a for a, _ in code})
            nx = lambda a: next((s for s in starts if s > a), a + 4)
            bad = sorted((a, nx(a)) for a, n in code if n in skip or '5linux' in n)
            lo = min(starts)
            hi = max(text) + 16
            keep, p = [], lo
            for a, b in bad:
                if a > p: keep.append((p, a))
                p = max(p, b)
            keep.append((p, hi))
            args = how[5:].split() + ['-one-insn-per-tb', '-d', 'exec,cpu,nochain', '-dfilter', ','.join('0x%x+0x%x' % (a, b - a) for a, b in keep), '-D', log, exe]
        else:
            args = [pa.build('bare'), 'drive', 'guest=' + exe, 'machine=' + how, 'log=' + log]
        p = subprocess.Popen(args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        import threading
        res = []
        def talk():
            try:
                for r in todo:
                    p.stdin.write(call(r))
                    p.stdin.flush()
                    while True:
                        m = p.stdout.read(257)
                        if len(m) < 257:
                            res.append(None)
                            return
                        if m[:1] == b'B':
                            p.stdin.write(b'K' + m[1:])
                            p.stdin.flush()
                            continue
                        break
                    res.append(None if m[:1] != b'R' else {4: 'ok', 5: 'err', 0: 'none'}.get(m[5], 'any'))
            finally:
                p.stdin.close()
        th = threading.Thread(target=talk)
        th.start()
        entry = {at['pa_run']} | ({at['pa_run'] + 8} if ar == 'power' else set())
        nsz = lambda i: sizes[i - nwarm] if i >= nwarm else 0
        out = {}
        with open(log) as f:
            first_pc = at['pa_run']
            for i, evs in enumerate(shapes(merge(steps(f), entry, first_pc), text, first_pc, at['PA_ARENA'] + off, nsz, decode, mask, xlen)):
                if i >= nwarm:
                    out[(0, i - nwarm)] = evs
        th.join()
        err = p.stderr.read().decode('utf-8', 'replace')
        p.wait()
    if len(res) != len(todo) or None in res:
        raise pa.ToolError('%s: answered %d calls of %d (%s) %s' % (run, len(res), len(todo), todo[len(res) - 1], err[-500:]))
    none = [todo[i] for i, x in enumerate(res) if x == 'none' and todo[i][1] != 'fence']
    if none:
        raise pa.ToolError('%s: no such operation: %s' % (run, none[0]))
    return out, [[x] for x in res[nwarm:]]

def merge(lines, entry, first):
    """The program's function may be entered past the part that finds the table of contents."""
    last = None
    for pc, regs in lines:
        if pc in entry and pc != first and last != first - 0 and not (last is not None and first <= last < pc):
            yield first, regs
        last = pc
        yield pc, regs
