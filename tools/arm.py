"""What the library's operations do on AArch64, from the instructions executed: the sequence of accesses and
barriers of each call (its shape) is recorded under qemu, spec/HwOrder.tla gives the outcomes that hardware
with those instructions has, and spec/WeakMem.tla must allow each of them."""
import json, os, re, struct, subprocess, tempfile
import litmus as L, pa

RMWO = ['rlx', 'acq', 'rel', 'ar', 'sc']

# ----------------------------------------------------------------------------------- what to call
def table(progs):
    """Every call of the programs, with every value of theirs as the current one: rows (ty, op, o, f, current, a, b)."""
    rows = set()
    for p in progs:
        for l, (ty, _, init) in enumerate(p.locs):
            m = (1 << L.width(ty, 64)) - 1
            calls = [i for t in p.ths for i in t if i[1] == l and i[0] not in ('fence', 'skip')]
            vals = {init & m} | {v & m for i in calls if i[0] in ('store', 'swap', 'cas', 'casw') for v in i[2:4]}
            for op, _, a, b, o, f in calls:
                for c in vals | ({b & m} if op == 'upd' else set()):
                    rows.add((ty, op, o, f, c, a if op in L.BITS else a & m, b & m))
        for t in p.ths:
            for i in t:
                if i[0] == 'fence':
                    rows.add(('-', 'fence', i[4], 'rlx', 0, 0, 0))
    return sorted(rows)

# ----------------------------------------------------------------------------------- AArch64 instructions
class Text:
    def __init__(self, exe, lo):
        d = open(exe, 'rb').read()
        phoff, = struct.unpack_from('<Q', d, 32)
        n, = struct.unpack_from('<H', d, 56)
        self.d, self.segs = d, []
        xs = []
        for i in range(n):
            typ, flags, off, va, _, fsz, _, _ = struct.unpack_from('<IIQQQQQQ', d, phoff + 56 * i)
            if typ == 1:
                self.segs.append((va, va + fsz, off))
                if flags & 1:
                    xs.append(va & ~0xfff)
        self.base = lo - min(xs)
    def word(self, pc):
        v = pc - self.base
        for a, b, off in self.segs:
            if a <= v < b:
                return struct.unpack_from('<I', self.d, off + v - a)[0]
        raise pa.ToolError('no instruction at %x' % pc)

def sx(v, n):
    return v - (1 << n) if v >> (n - 1) & 1 else v

def decode(w):
    """None, or a dict describing a memory access or barrier."""
    rn, rt, rt2, rs = w >> 5 & 31, w & 31, w >> 10 & 31, w >> 16 & 31
    size = w >> 30
    if w & 0xfffff000 == 0xd5033000:
        crm, op2 = w >> 8 & 15, w >> 5 & 7
        if op2 in (4, 5):        # DSB, DMB
            return {'c': 'F', 'm': {3: 'sy', 1: 'ld', 2: 'st'}.get(crm & 3, 'sy')}
        return {'c': 'F', 'm': 'sy'} if op2 == 1 else None
    if w >> 24 & 0x3f == 0b001000:
        o2, ld, o1, o0 = w >> 23 & 1, w >> 22 & 1, w >> 21 & 1, w >> 15 & 1
        if not o1 and not o2 or o1 and not o2 and size >= 2:
            n = (1 << size) if not o1 else (8 if size == 2 else 16)
            return {'c': 'ldx' if ld else 'stx', 'n': n, 'rn': rn, 'st': rs, 'm': ('A' if ld else 'L') if o0 else ''}
        if o2 and not o1:
            return {'c': 'ld' if ld else 'st', 'n': 1 << size, 'rn': rn, 'm': 'A' if ld else 'L', 'off': 0}
        if o1 and not o2:
            return {'c': 'cas', 'n': 8 if size == 0 else 16, 'rn': rn, 'rs': rs, 'pair': 4 if size == 0 else 8, 'ra': ld, 'wl': o0}
        return {'c': 'cas', 'n': 1 << size, 'rn': rn, 'rs': rs, 'pair': 0, 'ra': ld, 'wl': o0}
    if w & 0x3f200c00 == 0x38200000:
        a, r, o3, opc = w >> 23 & 1, w >> 22 & 1, w >> 15 & 1, w >> 12 & 7
        if o3 and opc == 4:
            return {'c': 'ld', 'n': 1 << size, 'rn': rn, 'm': 'Q', 'off': 0}
        return {'c': 'amo', 'n': 1 << size, 'rn': rn, 'ra': a and rt != 31, 'wl': r}
    if w & 0xff200c00 == 0x19200000 and w >> 10 & 0x3f in (0b000100, 0b001100, 0b100000):
        return {'c': 'amo128', 'n': 16, 'rn': rn, 'ra': w >> 23 & 1, 'wl': w >> 22 & 1}
    if w & 0xbfa0ec00 == 0x99000800:      # LDIAPP / STILP (RCPC3)
        ld = w >> 22 & 1
        return {'c': 'ldi' if ld else 'sti', 'n': 16 if size == 3 else 8, 'rn': rn, 'm': 'Q' if ld else 'L', 'off': 0}
    if w & 0x3f200c00 == 0x19000000:
        ld = w >> 22 & 3
        return {'c': 'ld' if ld else 'st', 'n': 1 << size, 'rn': rn, 'm': 'Q' if ld else 'L', 'off': sx(w >> 12 & 0x1ff, 9)}
    if w >> 27 & 7 == 0b101 and not w >> 25 & 1 or w >> 27 & 7 == 0b101:
        v, mode, ld = w >> 26 & 1, w >> 23 & 3, w >> 22 & 1
        n = (4 << size if size < 3 else 0) if v else (4 if size < 2 else 8)
        if w >> 25 & 1:
            return None
        off = 0 if mode == 1 else sx(w >> 15 & 0x7f, 7) * n
        return {'c': 'ld' if ld else 'st', 'n': 2 * n, 'rn': rn, 'm': '', 'off': off}
    if w >> 27 & 7 == 0b111:
        v, opc = w >> 26 & 1, w >> 22 & 3
        n = 1 << size
        ld = opc != 0
        if v and opc & 2:
            n, ld = 16, opc & 1
        if not v and size == 3 and opc == 2:
            return None           # prefetch
        if w >> 24 & 3 == 1:
            return {'c': 'ld' if ld else 'st', 'n': n, 'rn': rn, 'm': '', 'off': (w >> 10 & 0xfff) * n}
        if w >> 24 & 3 == 0 and not w >> 21 & 1:
            mode = w >> 10 & 3
            return {'c': 'ld' if ld else 'st', 'n': n, 'rn': rn, 'm': '', 'off': 0 if mode == 1 else sx(w >> 12 & 0x1ff, 9)}
        if w >> 24 & 3 == 0 and w >> 10 & 3 == 2:
            return {'c': 'ld' if ld else 'st', 'n': n, 'rn': rn, 'm': '', 'rm': rs, 'opt': w >> 13 & 7, 'sh': (size if not (v and opc & 2) else 4) if w >> 12 & 1 else 0}
    return None

MASK = (1 << 64) - 1
def reg(regs, n, sp=False):
    return regs['SP'] if n == 31 and sp else 0 if n == 31 else regs['X%02d' % n]

def shapes(lines, text, mark, end=1 << 20, sizes=None):
    """Yields (call number, [event])."""
    cur = None
    evs = []
    pend = None                # access waiting for the registers after it
    skip = None                # an instruction the harness carries out in a signal handler
    for pc, regs in lines:
        if skip is not None:
            if pc != skip:
                continue
            skip = None
        if pend is not None and cur is not None:
            d, before, addr = pend
            pend = None
            e = finish(d, before, regs(), addr, cur[1], sizes(cur[0]), evs)
        if pc == mark:
            r = regs()
            i = r['X00']
            if i == end:
                yield cur[0], evs
                cur = None
            else:
                cur, evs = (i, r['X01']), []
            continue
        if cur is None:
            continue
        d = decode(text.word(pc))
        if d is None:
            continue
        if d['c'] == 'F':
            evs.append({'k': 'F', 'm': d['m'], 'x': 0, 'n': 0})
            continue
        r = regs()
        addr = reg(r, d['rn'], True)
        if 'rm' in d:
            m = reg(r, d['rm'])
            if d['opt'] in (2, 6):
                m = sx(m & 0xffffffff, 32) if d['opt'] == 6 else m & 0xffffffff
            addr += m << d['sh']
        addr = (addr + d.get('off', 0)) & MASK
        sz = sizes(cur[0])
        if sz and addr < cur[1] + sz and addr + d['n'] > cur[1]:
            pend = (d, r, addr)
        if d['c'] in ('ldi', 'sti', 'amo128'):
            skip = pc + 4

def finish(d, before, after, addr, base, size, evs):
    whole = addr <= base and addr + d['n'] >= base + size
    part = 'all' if whole else '%d+%d' % (addr - base, d['n'])
    def ev(k, m, x=0, **kw):
        evs.append(dict({'k': k, 'm': m, 'x': x, 'part': part, 'i': d['c']}, **kw))
    if d['c'] in ('ld', 'ldi'):
        ev('R', d['m'])
    elif d['c'] in ('st', 'sti'):
        ev('W', d['m'])
    elif d['c'] == 'ldx':
        ev('R', d['m'], x=-1)
    elif d['c'] == 'stx':
        ok = reg(after, d['st']) & 0xffffffff == 0
        rd = [e for e in evs if e['k'] == 'R' and e['x'] == -1]
        if ok:
            n = 1 + max([e['x'] for e in evs] + [0])
            if rd:
                rd[-1]['x'] = n
            ev('W', d['m'], x=n if rd else 0)
    elif d['c'] == 'cas':
        m = (1 << (8 * d['n'])) - 1
        if d['pair']:
            w = 8 * d['pair']
            val = lambda r: [reg(r, d['rs']) & ((1 << w) - 1), reg(r, d['rs'] + 1) & ((1 << w) - 1)]
        else:
            val = lambda r: [reg(r, d['rs']) & m]
        ok = val(before) == val(after)
        n = 1 + max([e['x'] for e in evs] + [0])
        ev('R', 'A' if d['ra'] else '', x=n if ok else 0)
        if ok:
            ev('W', 'L' if d['wl'] else '', x=n)
    elif d['c'] in ('amo', 'amo128'):
        n = 1 + max([e['x'] for e in evs] + [0])
        ev('R', 'A' if d['ra'] else '', x=n)
        ev('W', 'L' if d['wl'] else '', x=n)

LINE = re.compile(r'([A-Z]+\d*)=\s*([0-9a-f]+)')
def steps(f):
    """(pc, registers) of every instruction in a qemu log."""
    pc, block = None, []
    for l in f:
        if l.startswith('Trace '):
            if pc is not None:
                yield pc, (lambda b=block: {k: int(v, 16) for x in b for k, v in LINE.findall(x)})
            pc, block = int(l.split('/', 2)[1], 16), []
        else:
            block.append(l)
    if pc is not None:
        yield pc, (lambda b=block: {k: int(v, 16) for x in b for k, v in LINE.findall(x)})

RESERVE = ['-R', '0x400000000']
def record(run, rows, passes=1):
    """{(pass, row number): [event]} and the results."""
    b, runner, _ = pa.RUNS[run]
    exe = pa.build(b)
    runner = [runner[0]] + RESERVE + runner[1:]
    env = dict(os.environ, **pa.ENVS.get(run, {}))
    def go(args):
        p = subprocess.run(runner + args, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600, env=env)
        if p.returncode != 0:
            raise pa.ToolError('%s: %s' % (' '.join(args), p.stderr[-1000:]))
        return p.stdout
    place = dict(l.split() for l in go([exe, 'place']).splitlines())
    lo, hi = (int(x, 16) for x in place['text'].split('-'))
    mark = int(place['mark'], 16)
    with tempfile.TemporaryDirectory(prefix='arm-') as t:
        tab, log = os.path.join(t, 'table'), os.path.join(t, 'log')
        with open(tab, 'w') as f:
            for ty, op, o, fo, init, a, b_ in rows:
                f.write('%s %s %s %s %s\n' % (ty, op, o, fo, ' '.join('%x %x' % (v & MASK, v >> 64) for v in (init, a, b_))))
        os.mkfifo(log)
        p = subprocess.Popen(runner + ['-one-insn-per-tb', '-d', 'exec,cpu,nochain', '-dfilter', '0x%x+0x%x' % (lo, hi - lo), '-D', log, exe, 'trace', 'table=' + tab, 'passes=%d' % passes],
                             stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env)
        text = Text(exe, lo)
        n = len(rows)
        size = lambda i: 0 if rows[i % n][0] == '-' else max(1, L.width(rows[i % n][0], 64) // 8)
        out = {}
        with open(log) as f:
            for i, evs in shapes(steps(f), text, mark, sizes=size):
                out[(i // n, i % n)] = evs
        res, err = p.communicate(timeout=60)
        if p.returncode != 0:
            raise pa.ToolError('trace under %s: %s' % (run, err[-1000:]))
    return out, [l.split() for l in res.splitlines()]

# ----------------------------------------------------------------------------------- judgement
def features(run):
    """What the processor of a run claims to have."""
    if run in pa.ENVS:
        return set(filter(None, pa.ENVS[run]['PA_CAPS'].split(',')))
    cpu = pa.RUNS[run][1][-1]
    f = {'cortex-a53': set(), 'neoverse-n1': {'lse'}, 'neoverse-v1': {'lse', 'lse2'}, 'max': {'lse', 'lse2'}}[cpu]
    return f | {'a64rcpc3': {'rcpc3'}, 'a64lse128': {'lse128'}, 'a64all': {'rcpc3', 'lse128'}}.get(pa.RUNS[run][0], set())
def lse2(run):
    return 'lse2' in features(run)
NEEDS = {'cas': 'lse', 'amo': 'lse', 'amo128': 'lse128', 'ldi': 'rcpc3', 'sti': 'rcpc3'}

def clean(evs, guesses=True):
    """The events of a call as the specification reads them; the last read is the one the call is about.
    `guesses`: with the plain reads from which a compare-exchange took what it expected (the more there are the
    longer TLC takes, and they decide nothing: what they saw was compared)."""
    last = max([i for i, e in enumerate(evs) if e['k'] == 'R'] + [-1])
    if not guesses:
        evs = [e for i, e in enumerate(evs) if e['k'] != 'R' or e['x'] > 0 or e['m'] or i == last]
    reads = [i for i, e in enumerate(evs) if e['k'] == 'R']
    return [dict({'k': e['k'], 'm': e['m'], 'x': max(0, e['x']), 's': bool(reads) and i == reads[-1]}, **{k: e[k] for k in ('before', 'after') if k in e}) for i, e in enumerate(evs)]

def whole(rows, run, row, evs):
    """A row for OpsTrace's WholeRow: what one call executed, where it touched the value."""
    have = sorted(features(run))
    need = sorted({NEEDS[e['i']] for e in evs if e.get('i') in NEEDS})
    vals = [e for e in evs if e['k'] == 'W'] + [e for e in evs if e['k'] == 'R'][-1:]
    acc = [{'i': e['i'], 'part': e['part'], 'paired': int(e['x'] > 0)} for e in vals]
    d = {'q': 'whole', 'call': list(row[:4]), 'bits': L.width(row[0], 64), 'have': have, 'need': need, 'acc': acc}
    rows.setdefault(json.dumps(d, sort_keys=True), set()).add(run)
    return len(vals)

def programs(c, jobs, order=True):
    """jobs: (run, programs). Whether each access of a value is single-copy atomic and within what the processor
    reports (OpsTrace), and the outcomes of the programs on the hardware with the recorded shapes, judged by WeakMem."""
    import hw
    judged = {}
    def one(job):
        run, progs = job
        rows = table(progs)
        return run, progs, rows, hw.record(run, rows) if run.startswith('g:') else record(run, rows)
    with pa.pool(6) as ex:
        list(ex.map(lambda n: pa.build(n), sorted({pa.RUNS[r][0] for r, _ in jobs})))
        recs = list(ex.map(one, jobs))
    c.log('traced', ' '.join(r[0] for r in recs))
    todo = {}                  # specification input -> [(prog, run)]
    nshape = set()
    for run, progs, rows, (evs, res) in recs:
        guest = run.startswith('g:')
        arch = hw.arch(run) if guest else 'arm'
        n = len(rows)
        shape = {}
        for (ps, i), ev in evs.items():
            row = rows[i]
            if not guest and row[0] != '-':
                c.cover['single_copy_accesses'] = c.cover.get('single_copy_accesses', 0) + whole(judged, run, row, ev)
            k = res[ps * n + i][0]
            key = json.dumps(clean(ev, not guest))
            nshape.add((arch, key))
            shape.setdefault(row[:4] + row[5:], {}).setdefault((k if k in ('ok', 'err') else 'any', key), set()).add(row[4])
        if len(evs) != n or len(res) != n:
            raise pa.ToolError('%s: traced %d calls of %d' % (run, len(evs), n))
        for p in progs:
            sp = dict(p.spec(64), arch=arch)
            for t, st in zip(p.ths, sp['ths']):
                for i, si in zip(t, st):
                    op, l, a, b, o, f = i
                    if op == 'fence':
                        key = ('-', 'fence', o, 'rlx', 0, 0)
                        w = 32
                    else:
                        ty = p.locs[l][0]
                        w = L.width(ty, 64)
                        m = (1 << w) - 1
                        key = (ty, op, o, f, a if op in L.BITS else a & m, b & m)
                    si['ways'] = [{'k': k, 'ev': json.loads(e), 'c': [L.limbs(w, v) for v in sorted(cs)]} for (k, e), cs in sorted(shape[key].items())]
            todo.setdefault(json.dumps(sp, sort_keys=True), []).append((p, run))
    if judged:
        c.judge_rows({k: sorted(v) for k, v in judged.items()})
    if not order:
        return
    keys = sorted(todo)
    c.cover['instruction_shapes'] = len(nshape)
    c.cover['shape_programs'] = len(keys)
    outs = candidates(c, keys)
    results = []
    for i, key in enumerate(keys):
        if not outs[i]:
            raise pa.ToolError('no execution of %s' % todo[key][0][0].text(''))
        for p, run in todo[key]:
            results.append((p, run + '/shapes', 64, {'n': len(outs[i]), 'outs': [json.loads(o) for o in sorted(outs[i])], 'note': 'full'}))
    c.log('shapes', len(nshape), 'programs', len(keys))
    L.judge(c, results)

def candidates(c, keys, size=2000):
    outs = []
    for k in range(0, len(keys), size):
        fd, path = tempfile.mkstemp(suffix='.ndjson')
        with os.fdopen(fd, 'w') as f:
            f.write('\n'.join(keys[k:k + size]) + '\n')
        try:
            r = pa.tlc('HwOrder', env={'PROGS': path}, heap='8g')
        finally:
            os.unlink(path)
        c.add_tlc(r)
        part = [set() for _ in keys[k:k + size]]
        for i, o in re.findall(r'<<"OUT", (\d+), "(.*)">>', r.out):
            part[int(i) - 1].add(o.replace('\\"', '"'))
        outs += part
    return outs

# ----------------------------------------------------------------------------------- the specification's own tests
def selftest(c, arches=('arm',)):
    """Instruction sequences whose outcomes on these machines are known."""
    one, two = L.pat(1), L.pat(2)
    L2 = [('u64', 0, 0), ('u64', 64, 0)]
    def e(s, last):
        k, _, x = s.partition('/')
        d = {'k': k[0], 'm': k[1:], 'x': int(x or 0), 's': last}
        if ',' in k:                     # a RISC-V fence
            p, q = k[1:].split(',')
            d.update(m='', before=list(p.upper()), after=list(q.upper()))
        return d
    def sh(s):
        parts = s.split()
        rd = [i for i, x in enumerate(parts) if x[0] == 'R']
        return {'k': 'any', 'c': [], 'ev': [e(x, bool(rd) and i == rd[-1]) for i, x in enumerate(parts)]}
    arch = None
    def prog(locs, ths):
        p = L.Prog(locs, *[[x[0] for x in t] for t in ths])
        d = dict(p.spec(64), arch=arch)
        for t, dt in zip(ths, d['ths']):
            for x, i in zip(t, dt):
                i['ways'] = [sh(x[1])]
        return d
    st, ld, rmw = L.st, L.ld, L.rmw
    def v(*xs): return [{'k': 'v', 'r': L.limbs(64, L.pat(x))} if isinstance(x, int) else {'k': 'u', 'r': []} for x in xs]
    fin = [L.limbs(64, one)] * 2
    def mp(w, r): return prog(L2, [[(st(0, one), 'W'), (st(1, one), w)], [(ld(1), r), (ld(0), 'R')]])
    def sb(w, r): return prog(L2, [[(st(0, one), w), (ld(1), r)], [(st(1, one), w), (ld(0), r)]])
    def sbx(w, r): return prog(L2, [[(rmw('swap', 0, one), w), (ld(1), r)], [(rmw('swap', 1, one), w), (ld(0), r)]])
    def iriw(r): return prog(L2, [[(st(0, one), 'W')], [(st(1, one), 'W')], [(ld(0), r), (ld(1), r)], [(ld(1), r), (ld(0), r)]])
    def inc(s): return prog([L2[0]], [[(rmw('fadd', 0, one), s)], [(rmw('fadd', 0, one), s)]])
    stale, sb0, sbx0, iriw0 = v('u', 'u', 1, 0), v('u', 0, 'u', 0), v(0, 0, 0, 0), v('u', 'u', 1, 0, 1, 0)
    lost = ([{'k': 'v', 'r': L.limbs(64, 0)}] * 2, [L.limbs(64, one)])
    def wrc(mid, r): return prog(L2, [[(st(0, one), 'W')], [(ld(0), mid.split('|')[0]), (st(1, one), mid.split('|')[1])], [(ld(1), r), (ld(0), 'R')]])
    def isa2(f): return prog(L2 + [('u64', 128, 0)], [[(st(0, one), 'W'), (st(1, one), f + ' W')], [(ld(1), 'R'), (st(2, one), f + ' W')], [(ld(2), 'R'), (ld(0), f + ' R')]])
    def rr(f): return prog(L2, [[(st(0, one), 'W'), (st(1, one), f + ' W')], [(st(1, two), 'W'), (ld(0), f + ' R')]])
    def lbr(a, b): return prog(L2, [[(ld(0), a), (st(1, one), b)], [(ld(1), a), (st(0, one), b)]])
    lbv, wrc0 = v(1, 'u', 1, 'u'), v('u', 1, 'u', 1, 0)
    rfin = [L.limbs(64, one), L.limbs(64, two)]
    cases = []
    if 'arm' in arches:
        arch = 'arm'
        lb = prog(L2, [[(ld(0), 'R'), (st(1, one), 'W')], [(ld(1), 'R'), (st(0, one), 'W')]])
        lbq = prog(L2, [[(ld(0), 'R Fld'), (st(1, one), 'W')], [(ld(1), 'R'), (st(0, one), 'WL')]])
        corr = prog([L2[0]], [[(st(0, one), 'W'), (st(0, two), 'W')], [(ld(0), 'R'), (ld(0), 'R')]])
        cases += [(mp('W', 'R'), stale, True), (mp('WL', 'RA'), stale, False), (mp('WL', 'RQ'), stale, False), (mp('WL', 'R'), stale, True), (mp('W', 'RA'), stale, True),
                 (mp('Fsy W', 'R Fld'), stale, False), (mp('Fst W', 'RQ'), stale, False), (mp('Fld W', 'RA'), stale, True), (mp('W Fsy', 'RA'), stale, True), (mp('WL', 'Fld R'), stale, True),
                 (mp('R/1 WL/1', 'RA/1 W/1'), stale, False), (mp('WL', 'R/1 WL/1'), stale, True),
                 (sb('W', 'R'), sb0, True), (sb('WL', 'RA'), sb0, False), (sb('WL', 'RQ'), sb0, True), (sb('WL', 'R Fld'), sb0, True), (sb('W Fsy', 'R'), sb0, False),
                 (sb('Fsy W', 'RA'), sb0, True), (sb('WL', 'RA R Fld'), sb0, False), (sb('W Fst', 'R'), sb0, True),
                 (sbx('RA/1 WL/1', 'R'), sbx0, True), (sbx('RA/1 WL/1', 'RA'), sbx0, False), (sbx('RA/1 W/1', 'RA'), sbx0, True), (sbx('RA/1 WL/1', 'RA/1 WL/1'), sbx0, False),
                 (iriw('R'), iriw0, True), (iriw('RA'), iriw0, False), (iriw('RQ'), iriw0, False), (iriw('R Fld'), iriw0, False), (iriw('Fld R'), iriw0, False),
                 (corr, v('u', 'u', 2, 1), False), (inc('R/1 W/1'), lost, False), (inc('R W'), lost, True), (inc('R R/1 W/1'), lost, False), (inc('RA WL'), lost, True),
                 (lb, v(1, 'u', 1, 'u'), True), (lbq, v(1, 'u', 1, 'u'), False)]
    if 'tso' in arches:
        arch = 'tso'
        cases += [(mp('W', 'R'), stale, False), (sb('W', 'R'), sb0, True), (sb('W Fsy', 'R'), sb0, False), (sb('Fsy W', 'R'), sb0, True), (sb('Fsy W', 'Fsy R'), sb0, False),
                  (sbx('RX/1 WX/1', 'R'), sbx0, False), (sbx('R/1 W/1', 'R'), sbx0, True), (sb('W', 'RX'), sb0, False), (iriw('R'), iriw0, False), (lbr('R', 'W'), lbv, False), (wrc('R|W', 'R'), wrc0, False),
                  (rr('Fsy'), (v('u', 'u', 'u', 0), rfin), False), (rr(''), (v('u', 'u', 'u', 0), rfin), True),
                  (inc('RX/1 WX/1'), lost, False), (inc('R W'), lost, True), (inc('R RX/1 WX/1'), lost, False)]
    if 'riscv' in arches:
        arch = 'riscv'
        cases += [(mp('W', 'R'), stale, True), (mp('Frw,w W', 'R Fr,rw'), stale, False), (mp('Frw,w W', 'R'), stale, True), (mp('W', 'R Fr,rw'), stale, True), (mp('Fr,w W', 'R Fr,rw'), stale, True),
                  (mp('Fw,w W', 'R Fr,r'), stale, False), (mp('Fr,rw Fw,w W', 'R Fr,rw Fw,w'), stale, False), (mp('RL/1 WL/1', 'R Fr,rw'), stale, False), (mp('R/1 W/1', 'R Fr,rw'), stale, True), (mp('Frw,w W', 'RA'), stale, False),
                  (mp('R/1 WL/1', 'RA/1 W/1'), stale, False), (sb('W', 'R'), sb0, True), (sb('Frw,w W Frw,rw', 'R'), sb0, False), (sb('Frw,w W', 'R Fr,rw'), sb0, True), (sb('Frw,w W', 'Frw,rw R Fr,rw'), sb0, False), (sb('W Fr,rw Fw,w', 'R'), sb0, True),
                  (sbx('RAL/1 WAL/1', 'RAL'), sbx0, False), (sbx('RA/1 WA/1', 'R'), sbx0, False), (sbx('RA/1 W/1', 'R'), sbx0, True), (sbx('RAL/1 WAL/1', 'Frw,rw R'), sbx0, False),
                  (iriw('R'), iriw0, True), (iriw('R Fr,rw'), iriw0, False), (iriw('RA'), iriw0, False), (lbr('R', 'W'), lbv, True), (lbr('R Fr,rw', 'W'), lbv, False), (wrc('R|Frw,w W', 'R Fr,rw'), wrc0, False), (wrc('R|W', 'R Fr,rw'), wrc0, True),
                  (inc('R/1 W/1'), lost, False), (inc('R W'), lost, True)]
    if 'power' in arches:
        arch = 'power'
        cases += [(mp('W', 'R'), stale, True), (mp('Flwsync W', 'R Fisync'), stale, False), (mp('Flwsync W', 'R'), stale, True), (mp('W', 'R Fisync'), stale, True), (mp('Flwsync W', 'Fisync R'), stale, True), (mp('Flwsync W', 'R Flwsync'), stale, False),
                  (mp('Fsync W', 'R Fsync'), stale, False), (mp('W Flwsync', 'R Fisync'), stale, True), (mp('Flwsync R/1 W/1', 'R/1 W/1 Fisync'), stale, False), (mp('Flwsync W', 'R/1 W/1'), stale, True),
                  (sb('W', 'R'), sb0, True), (sb('Flwsync W', 'R Fisync'), sb0, True), (sb('W Flwsync', 'R'), sb0, True), (sb('W Fsync', 'R'), sb0, False), (sb('Fsync W', 'Fsync R Fisync'), sb0, False), (sb('Fsync W', 'R Fisync'), sb0, True),
                  (sbx('Fsync R/1 W/1 Fisync', 'R'), sbx0, True), (sbx('Fsync R/1 W/1 Fisync', 'Fsync R'), sbx0, False),
                  (iriw('R'), iriw0, True), (iriw('R Fisync'), iriw0, True), (iriw('R Flwsync'), iriw0, True), (iriw('Fsync R'), iriw0, False), (iriw('R Fsync'), iriw0, False),
                  (wrc('R|W', 'R Fisync'), wrc0, True), (wrc('R Fisync|W', 'R Fisync'), wrc0, True), (wrc('R|Flwsync W', 'R Fisync'), wrc0, False), (wrc('R|Fsync W', 'R Fisync'), wrc0, False),
                  (isa2('Flwsync'), (v('u', 'u', 1, 'u', 1, 0), fin + fin[:1]), False), (isa2(''), (v('u', 'u', 1, 'u', 1, 0), fin + fin[:1]), True),
                  (rr('Flwsync'), (v('u', 'u', 'u', 0), rfin), True), (rr('Fsync'), (v('u', 'u', 'u', 0), rfin), False),
                  (lbr('R', 'W'), lbv, True), (lbr('R Fisync', 'W'), lbv, False), (lbr('R', 'Flwsync W'), lbv, False), (inc('R/1 W/1'), lost, False), (inc('R W'), lost, True),
                  (prog([L2[0]], [[(st(0, one), 'W'), (st(0, two), 'W')], [(ld(0), 'R'), (ld(0), 'R')]]), v('u', 'u', 2, 1), False)]
    outs = candidates(c, [json.dumps(p) for p, _, _ in cases])
    for i, (p, o, want) in enumerate(cases):
        res, f = o if isinstance(o, tuple) else (o, [L.limbs(64, two)] if len(p['locs']) == 1 else fin)
        got = any(json.loads(x) == {'res': res, 'fin': f} for x in outs[i])
        if got != want:
            raise pa.ToolError('HwOrder: case %d: %s %s, got %s' % (i, json.dumps(p['ths']), 'expected' if want else 'not expected', outs[i]))
    c.cover['hardware_specification_selftests'] = len(cases)
