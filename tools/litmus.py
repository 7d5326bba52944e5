"""Concurrent programs: generation, execution (simulator, real threads, instruction stepping), and judgement
by spec/WeakMem.tla."""
import json, os, random, re, tempfile
import pa

WIDTH = {'u8': 8, 'i8': 8, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32, 'u64': 64, 'i64': 64, 'u128': 128, 'i128': 128, 'bool': 1,
         'f32': 32, 'f64': 64, 'f16': 16, 'f128': 128}
PTRS = {'ptr0': 0, 'ptr1': 1, 'ptr3': 3, 'ptr8': 8, 'ptr24': 24, 'ptr4096': 4096}
RMW1 = ['swap', 'fadd', 'fsub', 'fand', 'fnand', 'for', 'fxor', 'fmax', 'fmin', 'fnot', 'fneg', 'add', 'sub', 'and', 'or', 'xor', 'not', 'neg', 'bset', 'bclr', 'btog']
BOOL_OPS = ['swap', 'fand', 'fnand', 'for', 'fxor', 'fnot', 'and', 'or', 'xor', 'not']
PTR_OPS = ['swap', 'fand', 'for', 'fxor', 'bset', 'bclr', 'btog', 'padd', 'psub', 'badd', 'bsub']
FLOAT_OPS = ['swap', 'fadd', 'fsub', 'fmax', 'fmin', 'fneg', 'fabs']

def width(ty, pb):
    return WIDTH[ty] if ty in WIDTH else pb
def kind(ty):
    return 'b' if ty == 'bool' else 'p' if ty in PTRS else 'f' if ty[0] == 'f' else 's' if ty[0] == 'i' else 'u'
def trec(ty, pb):
    return {'w': width(ty, pb), 'K': kind(ty), 'z': PTRS.get(ty, 1)}
def limbs(w, v):
    v &= (1 << w) - 1
    if w <= 8:
        return [v]
    return [(v >> (16 * i)) & 0xffff for i in range(w // 16)]
def pat(k):
    """k in every byte: a mixture of two of these is recognisable."""
    return int.from_bytes(bytes([k & 0xff]) * 16, 'little')
BITS = ('bset', 'bclr', 'btog')
def rmws(ty):
    k = kind(ty)
    return {'b': BOOL_OPS, 'p': PTR_OPS, 'f': FLOAT_OPS}.get(k, RMW1)
# A value-changing operand: the operation applied to zero gives something else.
def changing(ty, op):
    """(initial value, operand) for which the operation changes the value."""
    k = kind(ty)
    if k == 'b':
        return {'swap': (0, 1), 'fand': (1, 0), 'and': (1, 0), 'fnand': (0, 1), 'for': (0, 1), 'or': (0, 1), 'fxor': (0, 1), 'xor': (0, 1), 'fnot': (0, 0), 'not': (0, 0), 'store': (0, 1)}[op]
    if k == 'f':
        one = {16: 0x3c00, 32: 0x3f800000, 64: 0x3ff << 52, 128: 0x3fff << 112}[WIDTH[ty]]
        neg = 1 << (WIDTH[ty] - 1)
        return {'swap': (0, one), 'store': (0, one), 'fadd': (0, one), 'fsub': (0, one), 'fmax': (0, one), 'fmin': (0, one | neg), 'fneg': (one, 0), 'fabs': (one | neg, 0)}[op]
    if op in BITS:
        return (0, 5) if op != 'bclr' else (pat(0xff), 5)
    return {'swap': (0, pat(1)), 'store': (0, pat(1)), 'fand': (pat(3), pat(1)), 'and': (pat(3), pat(1)), 'fnand': (pat(0), pat(1)), 'fmax': (0, pat(1)), 'fmin': (pat(2), pat(1)),
            'fnot': (pat(1), 0), 'not': (pat(1), 0), 'fneg': (pat(1), 0), 'neg': (pat(1), 0), 'padd': (0, 1 << 4), 'psub': (0, 1 << 4)}.get(op, (0, pat(1)))

class Prog:
    """locs: (type, offset, initial value); threads: lists of (op, loc, a, b, ord, ford)."""
    def __init__(self, locs, *ths, tag=''):
        self.locs, self.ths, self.tag = list(locs), [list(t) for t in ths], tag
    def mask(self, loc, v):
        ty = self.locs[loc][0]
        return v & ((1 << (WIDTH.get(ty, 64))) - 1)
    def text(self, pid, pb=64):
        def m(loc, v):
            return v & ((1 << width(self.locs[loc][0], pb)) - 1)
        s = [pid, ' '.join('%s@%d=%x' % (ty, off, m(i, init)) for i, (ty, off, init) in enumerate(self.locs))]
        for t in self.ths:
            s.append(' '.join('%s.%d.%x.%x.%s.%s' % (op, l, a if op in BITS else m(l, a), m(l, b), o, f) for op, l, a, b, o, f in t))
        return ' ; '.join(s)
    def spec(self, pb, demote=False):
        """What TLC reads. `demote`: judge as if every SeqCst were AcqRel."""
        def weaker(op, o):
            return o if not demote or o != 'sc' else 'acq' if op == 'load' else 'rel' if op == 'store' else 'ar'
        def weakf(f): return 'acq' if demote and f == 'sc' else f
        def arg(op, l, v):
            return limbs(32, v) if op in BITS else limbs(width(self.locs[l][0], pb), v)
        return {'locs': [{'t': trec(ty, pb), 'init': limbs(width(ty, pb), init)} for ty, _, init in self.locs],
                'ths': [[{'op': op, 'loc': l + 1, 'a': arg(op, l, a), 'b': arg(op, l, b) if op not in BITS else [0], 'o': weaker(op, o), 'f': weakf(f)} for op, l, a, b, o, f in t if op != 'skip'] for t in self.ths]}
    def ok32(self):
        return True

def st(l, v, o='rlx'): return ('store', l, v, 0, o, 'rlx')
def ld(l, o='rlx'): return ('load', l, 0, 0, o, 'rlx')
def fence(o): return ('fence', 0, 0, 0, o, 'rlx')
def rmw(op, l, a, o='rlx'): return (op, l, a, 0, o, 'rlx')
def skip(to): return ('skip', 0, to, 0, 'rlx', 'rlx')
def cas(l, a, b, o='rlx', f='rlx', weak=False): return ('casw' if weak else 'cas', l, a, b, o, f)
def upd(l, a, none, o='rlx', f='rlx'): return ('upd', l, a, none, o, f)

# Where atomics go: 1072 = 67 * 16 apart share a lock, 16 apart are neighbours with different locks.
SAME, NEXT, FAR = 1072, 16, 4096 + 64

# ----------------------------------------------------------------------------------- running
def pbits(run):
    return 32 if pa.RUNS[run][0] in ('i686', 'v32') else 64

def run_batch(c, run, cmd, progs, args, shards=1, timeout=240):
    """Runs programs; returns [(prog, run, record)]."""
    pb = pbits(run)
    shards = max(1, min(shards, len(progs)))
    files = []
    for s in range(shards):
        part = [(i, p) for i, p in enumerate(progs) if i % shards == s]
        fd, path = tempfile.mkstemp(suffix='.progs')
        with os.fdopen(fd, 'w') as f:
            f.write('\n'.join(p.text('p%d' % i, pb) for i, p in part) + '\n')
        files.append(path)
    try:
        res = c.gather([(run, [cmd, 'progs=' + f] + args, timeout) for f in files])
    finally:
        for f in files:
            os.unlink(f)
    out = []
    for j, (text, err) in res:
        for l in text.splitlines():
            if l.startswith('{'):
                d = json.loads(l)
                out.append((progs[int(d['p'][1:])], run, d))
    return out

def run_many(c, jobs, timeout=240):
    """jobs: (run, cmd, progs, args, shards); all at once."""
    flat, files = [], []
    for n, (run, cmd, progs, args, shards) in enumerate(jobs):
        pb = pbits(run)
        shards = max(1, min(shards, len(progs)))
        for s in range(shards):
            part = [(i, p) for i, p in enumerate(progs) if i % shards == s]
            fd, path = tempfile.mkstemp(suffix='.progs')
            with os.fdopen(fd, 'w') as f:
                f.write('\n'.join(p.text('p%d' % i, pb) for i, p in part) + '\n')
            files.append(path)
            flat.append((run, [cmd, 'progs=' + path] + args, timeout, n))
    try:
        res = c.gather(flat)
    finally:
        for f in files:
            os.unlink(f)
    out = []
    for j, (text, err) in res:
        run, cmd, progs, args, _ = jobs[j[3]]
        for l in text.splitlines():
            if l.startswith('{'):
                d = json.loads(l)
                out.append((progs[int(d['p'][1:])], '%s/%s' % (run, cmd), pbits(run), d))
    return out

def judge(c, results, size=3000):
    """Every observed outcome must be one that spec/WeakMem.tla allows."""
    table = {}
    execs = 0
    full = 0
    for p, run, pb, d in results:
        # qemu lets a store-release pass a later load-acquire of another address, which AArch64 does not:
        # what runs there is not held to the order of SeqCst operations on several atomics.
        sp = p.spec(pb, demote=run.startswith('a64') and run.endswith('stress'))
        key = json.dumps(sp, sort_keys=True)
        outs, txt = table.setdefault(key, ({}, p.text('', pb)))
        execs += d['n']
        full += d['note'] == 'full'
        for o in d['outs']:
            outs.setdefault(json.dumps(o, sort_keys=True), set()).add((run, p.text('', pb)))
    keys = sorted(table)
    c.cover['programs'] = c.cover.get('programs', 0) + len(results)
    c.cover['distinct_programs'] = c.cover.get('distinct_programs', 0) + len(keys)
    c.cover['programs_enumerated_completely_within_bounds'] = c.cover.get('programs_enumerated_completely_within_bounds', 0) + full
    c.cover['executions'] = c.cover.get('executions', 0) + execs
    c.log('programs', len(keys), 'executions', execs)
    nseen = 0
    for k in range(0, len(keys), size):
        part = keys[k:k + size]
        fd, path = tempfile.mkstemp(suffix='.ndjson')
        obs = []
        with os.fdopen(fd, 'w') as f:
            for key in part:
                d = json.loads(key)
                os_ = sorted(table[key][0])
                obs.append(os_)
                d['outs'] = [json.loads(o) for o in os_]
                f.write(json.dumps(d) + '\n')
        try:
            r = pa.tlc('WeakMem', env={'PROGS': path}, heap='8g')
        finally:
            os.unlink(path)
        c.add_tlc(r)
        seen = {(int(a), int(b)) for a, b in re.findall(r'<<"SEEN", (\d+), (\d+)>>', r.out)}
        for i, os_ in enumerate(obs, 1):
            for j, o in enumerate(os_, 1):
                if (i, j) in seen:
                    nseen += 1
                else:
                    where = sorted(table[part[i - 1]][0][o])[:4]
                    c.violate('an outcome no behaviour of the specification has', {'configs': sorted({w[0] for w in where}), 'program': where[0][1], 'outcome': json.loads(o)})
    c.traces += nseen
    for key in keys[::max(1, len(keys) // 3)][:3]:
        c.samples.append({'program': table[key][1], 'outcomes': [json.loads(o) for o in sorted(table[key][0])[:3]]})
    c.log('judged', nseen, 'outcomes')

# ----------------------------------------------------------------------------------- the specification's own tests
def selftest(c):
    """Classical tests: outcomes the memory model forbids / allows, on the specification itself."""
    P, A = 'u64', pat
    def v(*xs): return [{'k': 'v', 'r': limbs(64, pat(x))} if isinstance(x, int) else {'k': 'u', 'r': []} for x in xs]
    L2 = [(P, 0, 0), (P, 64, 0)]
    one = pat(1)
    def mp(w, r): return Prog(L2, [st(0, one), st(1, one, w)], [ld(1, r), ld(0)])
    stale = {'res': v('u', 'u', 1, 0), 'fin': [limbs(64, one)] * 2}
    sb0 = {'res': v('u', 0, 'u', 0), 'fin': [limbs(64, one)] * 2}
    def sb(a, b): return Prog(L2, [st(0, one, a), ld(1, b)], [st(1, one, a), ld(0, b)])
    def sbf(o): return Prog(L2, [st(0, one), fence(o), ld(1)], [st(1, one), fence(o), ld(0)])
    sbf0 = {'res': v('u', 'u', 0, 'u', 'u', 0), 'fin': [limbs(64, one)] * 2}
    def iriw(o): return Prog(L2, [st(0, one, 'rel' if o == 'acq' else o)], [st(1, one, 'rel' if o == 'acq' else o)], [ld(0, o), ld(1, o)], [ld(1, o), ld(0, o)])
    iriw0 = {'res': v('u', 'u', 1, 0, 1, 0), 'fin': [limbs(64, one)] * 2}
    relseq = Prog(L2, [st(0, one), st(1, one, 'rel')], [rmw('fadd', 1, one, 'rlx')], [ld(1, 'acq'), ld(0)])
    relseq0 = {'res': v('u', 'u', 1, 2, 0), 'fin': [limbs(64, one), limbs(64, pat(2))]}
    norel = Prog(L2, [st(0, one), st(1, one, 'rel')], [st(1, pat(2), 'rlx')], [ld(1, 'acq'), ld(0)])
    norel0 = {'res': v('u', 'u', 'u', 2, 0), 'fin': [limbs(64, one), limbs(64, pat(2))]}
    corr = Prog([(P, 0, 0)], [st(0, one), st(0, pat(2))], [ld(0), ld(0)])
    corr0 = {'res': v('u', 'u', 2, 1), 'fin': [limbs(64, pat(2))]}
    fmp = Prog(L2, [st(0, one), fence('rel'), st(1, one)], [ld(1), fence('acq'), ld(0)])
    fmp0 = {'res': v('u', 'u', 'u', 1, 'u', 0), 'fin': [limbs(64, one)] * 2}
    lost = Prog([(P, 0, 0)], [rmw('fadd', 0, one)], [rmw('fadd', 0, one)])
    lost0 = {'res': v(0, 0), 'fin': [limbs(64, one)]}
    strong = Prog([(P, 0, 0)], [cas(0, 0, one)], [ld(0)])
    spur = {'res': [{'k': 'err', 'r': limbs(64, 0)}] + v(0), 'fin': [limbs(64, 0)]}
    weak = Prog([(P, 0, 0)], [cas(0, 0, one, weak=True)], [ld(0)])
    torn = Prog([('u128', 0, 0)], [st(0, one)], [ld(0)])
    torn0 = {'res': [{'k': 'u', 'r': []}, {'k': 'v', 'r': [0x101] * 4 + [0] * 4}], 'fin': [[0x101] * 8]}
    cases = [(mp('rel', 'acq'), stale, False), (mp('rlx', 'acq'), stale, True), (mp('rel', 'rlx'), stale, True), (mp('sc', 'sc'), stale, False),
             (sb('sc', 'sc'), sb0, False), (sb('rel', 'acq'), sb0, True), (sbf('sc'), sbf0, False), (sbf('ar'), sbf0, True),
             (iriw('sc'), iriw0, False), (iriw('acq'), iriw0, True), (relseq, relseq0, False), (norel, norel0, True), (corr, corr0, False),
             (fmp, fmp0, False), (lost, lost0, False), (strong, spur, False), (weak, spur, True), (torn, torn0, False)]
    fd, path = tempfile.mkstemp(suffix='.ndjson')
    with os.fdopen(fd, 'w') as f:
        for p, o, _ in cases:
            d = p.spec(64)
            d['outs'] = [o]
            f.write(json.dumps(d) + '\n')
    try:
        r = pa.tlc('WeakMem', env={'PROGS': path})
    finally:
        os.unlink(path)
    seen = {int(a) for a in re.findall(r'<<"SEEN", (\d+), 1>>', r.out)}
    for i, (p, o, want) in enumerate(cases, 1):
        if (i in seen) != want:
            raise pa.ToolError('the specification %s the outcome %s of %s' % ('allows' if i in seen else 'forbids', o, p.text('')))
    c.cover['specification_selftests'] = len(cases)

# ----------------------------------------------------------------------------------- families of programs
def operand(ty, op, rng):
    k = kind(ty)
    if op in BITS:
        return rng.choice([0, 1, 5, 7, 31, 63, 64, 77, 127, 130, 0xffffffff])
    if k == 'b':
        return rng.randrange(2)
    if op in ('padd', 'psub'):
        return rng.randrange(1, 64)
    return rng.choice([pat(1), pat(2), pat(3), pat(0x80), pat(0x7f), pat(0xff), 1, (1 << 64) - 1, 1 << 63, 1 << 64, (1 << 127), 0x0123456789abcdef0011223344556677])

def rand_op(ty, l, rng, vals, orders=None):
    ops = ['load', 'store', 'cas', 'casw', 'upd'] + [rng.choice(rmws(ty)) for _ in range(3)]
    if kind(ty) == 'f':
        ops = ['load', 'store', 'swap', 'cas', 'casw', 'fneg', 'fabs']
    op = rng.choice(ops)
    o = rng.choice(orders or (['rlx', 'acq', 'sc'] if op == 'load' else ['rlx', 'rel', 'sc'] if op == 'store' else ['rlx', 'acq', 'rel', 'ar', 'sc']))
    f = rng.choice(['rlx', 'acq', 'sc'])
    if op == 'load': return ld(l, o)
    if op in ('store', 'swap'): return (op, l, rng.choice(vals), 0, o, 'rlx')
    if op in ('cas', 'casw'): return (op, l, rng.choice(vals), rng.choice(vals), o, f)
    if op == 'upd': return ('upd', l, rng.choice(vals), rng.choice(vals), o, f)
    return (op, l, operand(ty, op, rng), 0, o, 'rlx')

def rand_single(ty, rng, shape, off=0):
    """Random operations on one atomic."""
    vals = [0, 1] if kind(ty) == 'b' else [0, pat(1), pat(2), pat(3), (1 << 64) - 1 if ty in ('u128', 'i128') else pat(0xfe)]
    if kind(ty) == 'f':
        vals = [0, pat(0x3e), pat(0x40)]
    return Prog([(ty, off, rng.choice(vals))], *[[rand_op(ty, 0, rng, vals) for _ in range(n)] for n in shape])

def writer_ops(ty):
    """Modifying operations usable as a flag writer: (op tuple builder(order), init)."""
    out = []
    for op in ['store'] + rmws(ty):
        init, a = changing(ty, op)
        out.append((op, init, (lambda op, a: lambda l, o: (op, l, a, 0, o, 'rlx'))(op, a)))
    if kind(ty) != 'f' or True:
        one = 1 if kind(ty) == 'b' else pat(1)
        if kind(ty) == 'f':
            one = changing(ty, 'swap')[1]
        out.append(('cas', 0, lambda l, o: cas(l, 0, one, o, 'rlx')))
        out.append(('casw', 0, lambda l, o: cas(l, 0, one, o, 'rlx', True)))
        out.append(('upd', 0, lambda l, o: upd(l, one, one + 1 if kind(ty) != 'b' else 1, o, 'rlx')))
    return out

DATA = ('u64', 8192, 0)        # plain relaxed data next to the flag
D1 = pat(1)
def wr_orders(op): return ['rel', 'sc'] if op == 'store' else ['rel', 'ar', 'sc']

def message_passing(types, far=0):
    """Every operation as release writer and as acquire reader, alone and through fences and release sequences."""
    out = []
    for ty in types:
        one = changing(ty, 'store')[1]
        for op, init, mk in writer_ops(ty):
            loc = (ty, far, init)
            for o in wr_orders(op):
                out.append(Prog([loc, DATA], [st(1, D1), mk(0, o)], [ld(0, 'acq'), ld(1)], tag='mpw'))
            # through fences
            out.append(Prog([loc, DATA], [st(1, D1), fence('rel'), mk(0, 'rlx')], [ld(0), fence('acq'), ld(1)], tag='mpf'))
            if op != 'store':
                zero = (ty, far, 0 if op not in ('fand', 'and', 'fmin', 'bclr', 'fneg', 'fabs', 'fnot', 'not', 'neg') else init)
                start = (ty, far, 0)
                flag = one if op not in ('bclr', 'fand', 'and', 'fnot', 'not', 'fneg', 'neg', 'fabs', 'fmin', 'bset', 'btog', 'fmax') else (init or one)
                if op in ('cas', 'casw'):
                    rd = [lambda o: cas(0, one, 0, o, 'rlx', op == 'casw'), lambda o: cas(0, one, one, 'rlx', o if o != 'ar' else 'acq', op == 'casw'),
                          lambda o: cas(0, 0, one, 'rlx', o if o != 'ar' else 'acq', op == 'casw')]
                elif op == 'upd':
                    rd = [lambda o: upd(0, 0 if kind(ty) == 'b' else one, 0, o, 'rlx'), lambda o: upd(0, one, one, 'rlx', o if o != 'ar' else 'acq')]
                else:
                    rd = [lambda o: mk(0, o)]
                for r in rd:
                    for o in ('acq', 'ar', 'sc'):
                        out.append(Prog([start, DATA], [st(1, D1), st(0, flag, 'rel')], [r(o), ld(1)], tag='mpr'))
                # release sequence through this operation
                if op not in ('cas', 'casw', 'upd'):
                    out.append(Prog([start, DATA], [st(1, D1), st(0, flag, 'rel')], [mk(0, 'rlx')], [ld(0, 'acq'), ld(1)], tag='relseq'))
            else:
                for o in ('acq', 'sc'):
                    out.append(Prog([loc, DATA], [st(1, D1), mk(0, 'rel')], [ld(0, o), ld(1)], tag='mpr'))
    return out

def failures(types):
    """Conditional updates of every pair of orderings, publishing when they succeed and observing when they fail
    (old compilers accept no failure ordering stronger than that of success: the library has to raise the latter)."""
    out = []
    for ty in types:
        one = changing(ty, 'store')[1]
        for s in ('rlx', 'acq', 'rel', 'ar', 'sc'):
            for f in ('rlx', 'acq', 'sc'):
                for w in (False, True):
                    if s in ('rel', 'ar', 'sc'):
                        out.append(Prog([(ty, 0, 0), DATA], [st(1, D1), cas(0, 0, one, s, f, w)], [ld(0, 'acq'), ld(1)], tag='casw'))
                    if s in ('acq', 'ar', 'sc'):
                        out.append(Prog([(ty, 0, 0), DATA], [st(1, D1), st(0, one, 'rel')], [cas(0, one, 0, s, f, w), ld(1)], tag='casr'))
                    if f != 'rlx':
                        out.append(Prog([(ty, 0, 0), DATA], [st(1, D1), st(0, one, 'rel')], [cas(0, 0, one, s, f, w), ld(1)], tag='casf'))
                if f != 'rlx':
                    out.append(Prog([(ty, 0, 0), DATA], [st(1, D1), st(0, one, 'rel')], [upd(0, 0, one, s, f), ld(1)], tag='updf'))
        for s, f in (('rlx', 'sc'), ('acq', 'sc'), ('rel', 'sc'), ('sc', 'sc')):     # failing ones are loads: SC ones take part in the order of SC
            two = [(ty, 0, 0), DATA]
            out.append(Prog(two, [st(0, one, 'sc'), ld(1, 'sc')], [st(1, D1, 'sc'), cas(0, one, 0 if kind(ty) == 'b' else changing(ty, 'swap')[1], s, f)], tag='cassb'))
    return out

def coherence(types):
    out = []
    for ty in types:
        a, b = (1, 0) if kind(ty) == 'b' else (pat(1), pat(2))
        if kind(ty) == 'f':
            a, b = changing(ty, 'store')[1], changing(ty, 'fneg')[0] | 1
        L = (ty, 0, 0)
        out += [Prog([L], [st(0, a), st(0, b)], [ld(0), ld(0), ld(0)], tag='corr'),
                Prog([L], [st(0, a), ld(0)], [st(0, b), ld(0)], tag='cowr'),
                Prog([L], [ld(0), st(0, a)], [st(0, b), ld(0)], tag='corw'),
                Prog([L], [st(0, a)], [st(0, b)], [ld(0), ld(0)], [ld(0), ld(0)], tag='corr2'),
                Prog([L, DATA], [st(1, D1), st(0, a, 'rel')], [ld(0, 'acq'), st(0, b, 'rel')], [ld(0, 'acq'), ld(1)], tag='wrc')]
    return out

def pairs(types, places=(NEXT, SAME)):
    """Two atomics of these types at the usual relative positions."""
    out = []
    for x in types:
        for y in types:
            for d in places:
                out.append((x, y, d))
    return out

def mp_pairs(types, places=(NEXT, SAME)):
    """Message passing where data and flag are both atomics of the given types, possibly sharing a lock."""
    out = []
    for x, y, d in pairs(types, places):
        ax, ay = changing(x, 'store')[1], changing(y, 'store')[1]
        L = [(x, 0, 0), (y, d, 0)]
        out += [Prog(L, [st(0, ax), st(1, ay, 'rel')], [ld(1, 'acq'), ld(0)], tag='mp2'),
                Prog(L, [st(1, ay), st(0, ax, 'rel')], [ld(0, 'acq'), ld(1)], tag='mp2'),
                Prog(L, [st(0, ax), fence('rel'), st(1, ay)], [ld(1), fence('acq'), ld(0)], tag='mp2f'),
                Prog(L, [st(0, ax), rmw('swap', 1, ay, 'rel')], [cas(1, ay, 0, 'acq'), ld(0)], tag='mp2x')]
    return out

def seqcst(types, places=(NEXT, SAME), ops=True):
    out = []
    for x, y, d in pairs(types, places):
        L = [(x, 0, 0), (y, d, 0)]
        ax, ay = changing(x, 'store')[1], changing(y, 'store')[1]
        w = lambda l, a: [st(l, a, 'sc'), rmw('swap', l, a, 'sc'), cas(l, 0, a, 'sc', 'rlx'), upd(l, a, a + 1 if kind((x, y)[l]) != 'b' else 1, 'sc', 'rlx')]
        r = lambda l, a: [ld(l, 'sc'), cas(l, a, a, 'sc', 'sc'), upd(l, a, 0, 'sc', 'sc')]
        for i, (w0, w1) in enumerate(zip(w(0, ax), w(1, ay))):
            for r0, r1 in zip(r(0, ax), r(1, ay)):
                out.append(Prog(L, [w0, r1], [w1, r0], tag='sb'))
        out.append(Prog(L, [st(0, ax), fence('sc'), ld(1)], [st(1, ay), fence('sc'), ld(0)], tag='sbf'))
        out.append(Prog(L, [st(0, ax, 'sc'), ld(1, 'sc')], [st(1, ay), fence('sc'), ld(0)], tag='sbm'))
        out.append(Prog(L, [st(0, ax, 'sc')], [st(1, ay, 'sc')], [ld(0, 'sc'), ld(1, 'sc')], [ld(1, 'sc'), ld(0, 'sc')], tag='iriw'))
        out.append(Prog(L, [st(0, ax, 'sc')], [ld(0, 'sc'), ld(1, 'sc')], [st(1, ay, 'sc'), ld(0, 'sc')], tag='rwc'))
        out.append(Prog(L, [st(0, ax, 'sc'), st(1, ay, 'sc')], [st(1, 0 if kind(y) == 'b' else pat(2), 'sc'), ld(0, 'sc')], tag='r'))
    if ops:
        # every operation as the sequentially consistent writer and as the reader of the other atomic
        for ty in types:
            for op, init, mk in writer_ops(ty):
                L = [(ty, 0, init), ('u64', 8192, 0)]
                out.append(Prog(L, [mk(0, 'sc'), ld(1, 'sc')], [st(1, D1, 'sc'), ld(0, 'sc')], tag='sbop'))
                if op != 'store':
                    out.append(Prog(L, [st(1, D1, 'sc'), mk(0, 'sc')], [st(0, changing(ty, 'store')[1] if init == 0 else 0, 'sc'), ld(1, 'sc')], tag='sbop2'))
    return out

def tearing(types):
    out = []
    for ty in types:
        a, b, z = pat(0x11), pat(0x22), pat(0x33)
        L = (ty, 0, 0)
        out += [Prog([L], [st(0, a)], [ld(0), ld(0)], tag='tear'),
                Prog([L], [st(0, a), st(0, b)], [ld(0), ld(0)], tag='tear'),
                Prog([L], [st(0, a)], [st(0, b)], [ld(0), ld(0)], tag='tear'),
                Prog([L], [rmw('swap', 0, a)], [rmw('swap', 0, b)], [ld(0)], tag='tear'),
                Prog([L], [rmw('fadd', 0, (1 << 64) - 1), rmw('fadd', 0, 1)], [ld(0), ld(0)], tag='tear'),
                Prog([L], [rmw('fsub', 0, 1)], [rmw('fadd', 0, 1)], [ld(0)], tag='tear'),
                Prog([L], [rmw('fxor', 0, (1 << 128) - 1)], [rmw('fnot', 0, 0)], [ld(0)], tag='tear'),
                Prog([L], [st(0, a)], [rmw('fmax', 0, b)], [rmw('for', 0, z)], tag='tear'),
                Prog([L], [st(0, a)], [cas(0, 0, b)], [cas(0, a, z), ld(0)], tag='tear'),
                Prog([L], [st(0, a), st(0, 0)], [cas(0, (a >> 64 << 64) & ((1 << 128) - 1), z), cas(0, a & ((1 << 64) - 1), z)], tag='tear'),
                Prog([L], [st(0, a), rmw('swap', 0, b)], [upd(0, z, b)], tag='tear'),
                Prog([L], [rmw('fand', 0, a), rmw('for', 0, b)], [rmw('fnand', 0, z), ld(0)], tag='tear')]
    return out

def contention(types):
    """Compare-exchange and updates racing for the same value."""
    out = []
    for ty in types:
        a, b, d = (1, 1, 1) if kind(ty) == 'b' else (pat(1), pat(2), pat(3))
        L = (ty, 0, 0)
        if kind(ty) in 'bpf':
            out += [Prog([L], [cas(0, 0, a)], [cas(0, 0, b)], [cas(0, 0, d)], tag='cas3'),
                    Prog([L], [cas(0, 0, a), cas(0, a, 0)], [cas(0, 0, a), cas(0, a, 0)], tag='cas22'),
                    Prog([L], [cas(0, 0, a, 'sc', 'sc', True), ld(0)], [cas(0, 0, b, 'sc', 'sc', True), ld(0)], tag='casw'),
                    Prog([L], [cas(0, 0, a, 'ar', 'acq')], [st(0, b, 'rel'), st(0, 0, 'rel')], tag='aba'),
                    Prog([L], [cas(0, 0, a, 'ar', 'acq')], [cas(0, 0, 0, 'ar', 'acq')], [ld(0)], tag='same'),
                    Prog([L], [cas(0, a, 0, 'ar', 'acq')], [rmw('swap', 0, a)], [cas(0, 0, a), ld(0)], tag='swap')]
            continue
        out += [Prog([L], [cas(0, 0, a)], [cas(0, 0, b)], [cas(0, 0, d)], tag='cas3'),
                Prog([L], [cas(0, 0, a), cas(0, a, b)], [cas(0, 0, d), cas(0, d, a)], tag='cas22'),
                Prog([L], [cas(0, 0, a, 'sc', 'sc', True), ld(0)], [cas(0, 0, b, 'sc', 'sc', True), ld(0)], tag='casw'),
                Prog([L], [cas(0, 0, a, 'ar', 'acq')], [st(0, b, 'rel'), st(0, 0, 'rel')], tag='aba'),
                Prog([L], [cas(0, 0, a, 'ar', 'acq')], [cas(0, 0, 0, 'ar', 'acq')], [ld(0)], tag='same'),
                Prog([L], [upd(0, a, b)], [upd(0, a, d)], tag='upd2'),
                Prog([L], [upd(0, a, 0)], [st(0, a), st(0, 0)], tag='updnone'),
                Prog([L], [upd(0, a, b, 'ar', 'acq')], [rmw('fadd', 0, a)], [rmw('fadd', 0, a)], tag='updadd'),
                Prog([L], [upd(0, a, b), upd(0, a, b)], [upd(0, b, a), ld(0)], tag='updupd')]
    return out

def updates(types, rng, n=40):
    """Closure-driven updates against every kind of writer."""
    out = []
    for ty in types:
        k = kind(ty)
        vals = [0, 1] if k == 'b' else [0, pat(1), pat(2), pat(3)]
        if k == 'f':
            vals = [0, pat(0x3e), pat(0x40)]
        for _ in range(n):
            u = lambda: upd(0, rng.choice(vals), rng.choice(vals + [pat(9)] if k != 'b' else vals), rng.choice(['rlx', 'acq', 'rel', 'ar', 'sc']), rng.choice(['rlx', 'acq', 'sc']))
            boom = lambda: ('upanic', 0, rng.choice(vals), rng.choice(vals), 'sc', 'sc')
            sh = rng.choice([0, 0, 1, 2])
            t1 = [u()] + ([u()] if rng.random() < .4 else [])
            t2 = [rand_op(ty, 0, rng, vals) for _ in range(2)]
            if rng.random() < .2:
                t1.insert(rng.randrange(len(t1) + 1), boom())
            ths = [t1, t2] if sh == 0 else [t1, [u()], t2[:1]] if sh == 1 else [t1, [u(), t2[0]]]
            out.append(Prog([(ty, 0, rng.choice(vals))], *ths, tag='upd'))
    return out

def recovery(types):
    """Operations that fail, are refused or panic must leave everything usable."""
    out = []
    bad = lambda op, l, a=0: (op, l, a, 0, 'rlx', 'rlx')
    for ty in types:
        a, b = (1, 1) if kind(ty) == 'b' else (pat(1), pat(2))
        L = (ty, 0, 0)
        for d in (NEXT, SAME):
            M = (ty, d, 0)
            out += [Prog([L, M], [cas(0, a, b), ld(0)], [st(1, a), cas(1, 0, b), ld(1)], tag='rec'),
                    Prog([L, M], [bad('badld', 0), st(0, a)], [bad('badst', 1, a), ld(1)], tag='rec'),
                    Prog([L, M], [bad('badcas', 0, 0), rmw('swap', 0, a)], [st(1, a), ld(0)], tag='rec'),
                    Prog([L, M], [('upanic', 0, a, b if kind(ty) != 'b' else 1, 'sc', 'sc'), st(0, a)], [upd(0, a, b), ld(1)], tag='rec')]
        out += [Prog([L], [cas(0, a, b, 'sc', 'sc'), cas(0, a, b, 'sc', 'sc')], [st(0, a), cas(0, 0, a)], [ld(0), ld(0)], tag='rec'),
                Prog([L], [ld(0)], [ld(0)], [st(0, a)], [st(0, b)], tag='rec')]
    return out

def independent(types, rng, n=40):
    """Threads working on different atomics that are neighbours, share a lock, or share a word."""
    out = []
    for ty in types:
        w = max(1, WIDTH.get(ty, 64) // 8)
        for d in sorted({w, NEXT, SAME}):
            if d % w or d < w:
                continue
            for _ in range(n):
                p = rand_single(ty, rng, (2, 2))
                L = [(ty, 0, p.locs[0][2]), (ty, d, p.locs[0][2])]
                t2 = [(o[0], 1) + o[2:] for o in p.ths[1]]
                out.append(Prog(L, p.ths[0], t2, tag='ind'))
            p = rand_single(ty, rng, (2, 2, 1))
            out.append(Prog([(ty, 0, p.locs[0][2]), (ty, d, p.locs[0][2]), (ty, 2 * d, p.locs[0][2])], p.ths[0], [(o[0], 1) + o[2:] for o in p.ths[1]], [(o[0], 2) + o[2:] for o in p.ths[2]], tag='ind'))
    return out

def versions(types):
    """Reader against writers on the same lock, for wrapping versions."""
    out = []
    for ty in types:
        a, b = pat(0x11), pat(0x22)
        L = (ty, 0, 0)
        M = (ty, SAME, 0)
        out += [Prog([L], [ld(0), ld(0)], [st(0, a)], tag='ver'),
                Prog([L], [ld(0)], [st(0, a), st(0, b)], tag='ver'),
                Prog([L], [ld(0)], [st(0, a)], [st(0, b)], tag='ver'),
                Prog([L], [ld(0)], [st(0, a), cas(0, b, b), st(0, b)], tag='ver'),
                Prog([L], [ld(0), rmw('fadd', 0, 1)], [rmw('fadd', 0, 1), rmw('fsub', 0, 2)], tag='ver'),
                Prog([L, M], [ld(0), ld(1)], [st(1, a), st(0, a)], tag='ver'),
                Prog([L, M], [ld(0)], [st(1, a), st(0, b)], [st(0, a)], tag='ver'),
                Prog([L], [ld(0, 'sc')], [cas(0, 0, a, 'sc', 'sc')], [cas(0, a, b, 'sc', 'sc')], tag='ver')]
    return out

def overflow(types):
    """A reader held up while the low word of a wide version goes all the way round (spec'd as skip)."""
    out = []
    for ty in types:
        a, b = pat(0x11), pat(0x22)
        L = (ty, 0, 0)
        top = 0xfffffffe
        for w in (lambda v: st(0, v), lambda v: rmw('swap', 0, v), lambda v: rmw('fadd', 0, v), lambda v: st(0, v, 'sc')):
            out += [Prog([L], [ld(0)], [skip(top), w(a)], tag='ovf'),
                    Prog([L], [ld(0)], [w(a), skip(top), w(b)], tag='ovf'),
                    Prog([L], [ld(0)], [w(a), skip(top - 2), w(b)], tag='ovf'),
                    Prog([L], [ld(0), ld(0)], [skip(top), w(a), w(b)], tag='ovf'),
                    Prog([L], [ld(0)], [w(a), skip(top), w(b)], [w(pat(0x33))], tag='ovf'),
                    Prog([L], [ld(0, 'acq')], [skip(top), w(a)], [cas(0, b, b)], tag='ovf')]
        for r in (ld(0, 'sc'), cas(0, b, b, 'rlx', 'rlx'), upd(0, a, 0)):
            out += [Prog([L], [r, ld(0)], [skip(top), st(0, a)], tag='ovf'), Prog([L], [r], [st(0, b), skip(top - 2), st(0, a)], tag='ovf')]
    return out

def relay(types):
    """A change, then an operation of another thread that leaves no trace (or only reads), then a third:
    what the first did must still reach the third."""
    out = []
    for ty in types:
        a, b, n = (1, 1, 1) if kind(ty) == 'b' else (pat(1), pat(2), pat(5))
        if kind(ty) == 'f':
            a, b, n = changing(ty, 'swap')[1], changing(ty, 'swap')[1] ^ 1, 0x7e
        L = (ty, 0, 0)
        last = [lambda o: rmw('swap', 0, b, o), lambda o: cas(0, a, b, o, 'rlx'), lambda o: ld(0, 'acq' if o == 'ar' else 'rlx')]
        if kind(ty) not in 'bf':
            last += [lambda o: rmw('fxor', 0, b, o)] + ([lambda o: rmw('fadd', 0, b, o)] if kind(ty) != 'p' else [])
        mid = [cas(0, n, b), cas(0, n, b, 'ar', 'acq'), upd(0, b, a), upd(0, b, 0), ld(0), ld(0, 'acq')] if kind(ty) != 'b' else [cas(0, 0, 0), ld(0), upd(0, 1, 1)]
        for m in mid:
            for f in last:
                out.append(Prog([L], [st(0, a)], [m], [f('rlx')], tag='relay'))
                out.append(Prog([L], [st(0, a), m], [f('rlx')], tag='relay'))
                out.append(Prog([L, DATA], [st(1, D1), st(0, a, 'rel')], [m], [f('ar'), ld(1)], tag='relay'))
    return out

def keeping(ty):
    """(operation, initial value, operand): read-modify-writes that leave the value as it was."""
    k = kind(ty)
    if k == 'b':
        out = [('swap', 1, 1), ('swap', 0, 0), ('fand', 1, 1), ('fand', 0, 1), ('fand', 0, 0), ('fnand', 1, 0), ('for', 0, 0), ('for', 1, 1), ('for', 1, 0), ('fxor', 0, 0), ('fxor', 1, 0),
               ('and', 1, 1), ('and', 0, 0), ('or', 0, 0), ('or', 1, 1), ('xor', 1, 0), ('xor', 0, 0)]
    elif k == 'f':
        one = changing(ty, 'swap')[1]
        out = [('swap', one, one), ('fadd', one, 0), ('fsub', one, 0), ('fmax', one, one), ('fmax', one, 0), ('fmin', one, one), ('fmin', 0, one), ('fabs', one, 0)]
    else:
        m = (1 << WIDTH.get(ty, 64)) - 1
        hi = m >> 1
        out = [('swap', pat(1), pat(1)), ('fand', pat(1), m), ('fand', 0, 0), ('for', pat(1), 0), ('for', pat(1), pat(1)), ('fxor', pat(1), 0), ('bset', pat(0x21), 5), ('bclr', pat(1), 5)]
        if k == 'p':
            out += [('padd', pat(1), 0), ('psub', pat(1), 0), ('badd', pat(1), 0), ('bsub', pat(1), 0)]
        else:
            out += [('fadd', pat(1), 0), ('fsub', pat(1), 0), ('add', pat(1), 0), ('sub', pat(1), 0), ('and', pat(1), m), ('or', pat(1), 0), ('xor', pat(1), 0), ('fnand', m, 0),
                    ('fmax', hi, pat(1)), ('fmax', pat(1), pat(1)), ('fmin', pat(1), hi), ('fmin', pat(1), pat(1)), ('fneg', 0, 0), ('neg', 0, 0)]
    return out

def keeps(types):
    """Operations that change nothing are still read-modify-writes: of two on one atomic, one comes first
    and passes on what its thread did before."""
    out = []
    for ty in types:
        D2 = ('u64', 8320, 0)
        i = 1 if kind(ty) == 'b' else keeping(ty)[0][1]
        ops = [(init, lambda o, op=op, a=a: rmw(op, 0, a, o)) for op, init, a in keeping(ty)]
        ops += [(i, lambda o: cas(0, i, i, o, 'rlx')), (i, lambda o: upd(0, 0, i ^ 1, o, 'rlx'))]
        for init, mk in ops:
            L = [(ty, 0, init), DATA, D2]
            for o, p in (('ar', 'ar'), ('sc', 'sc')):
                out.append(Prog(L, [st(1, D1), mk(o), ld(2)], [st(2, D1), mk(p), ld(1)], tag='keep'))
    return out

def every(types, few=False):
    """Each operation by itself, with every ordering (`few`: the main ones), succeeding and failing."""
    out = []
    for ty in types:
        one = changing(ty, 'store')[1]
        L = lambda i: [(ty, 0, i)]
        for o in ('rlx', 'acq', 'sc'):
            out.append(Prog(L(one), [ld(0, o)]))
        for o in ('rlx', 'rel', 'sc'):
            out.append(Prog(L(0), [st(0, one, o)]))
        for o in ('rlx', 'sc') if few else ('rlx', 'acq', 'rel', 'ar', 'sc'):
            for op in rmws(ty):
                init, a = changing(ty, op)
                out.append(Prog(L(init), [rmw(op, 0, a, o)]))
            for op, init, a in [] if few else keeping(ty):
                out.append(Prog(L(init), [rmw(op, 0, a, o)]))
            for f in (o,) if few else ('rlx', 'acq', 'sc'):
                for w in (False,) if few else (False, True):
                    out += [Prog(L(0), [cas(0, 0, one, o, f, w)]), Prog(L(0), [cas(0, one, 0, o, f, w)]), Prog(L(one), [cas(0, one, one, o, f, w)])]
                out += [Prog(L(0), [upd(0, one, 0, o, f)]), Prog(L(one), [upd(0, 0, one, o, f)])]
    return out
