"""One function per property: what to run, and which specification decides."""
import json, os, re
import random
import arm, avail, litmus as L, pa
from pa import THOROUGH, SEED, rows_of

def deep(q, t): return t if THOROUGH else q

NATIVE_X = ['x64', 'x64dbg', 'x64det', 'x64no', 'x64cx', 'x64f', 'x64fno', 'i686', 'cs', 'x64old', 'i686old', 'x64tsancx']
QEMU = ['x64@cx16', 'x64@nocx16', 'a64@v8.0', 'a64@lse', 'a64@lse2', 'a64lse@lse', 'a64lse2@lse2', 'a64dbg@max', 'a64rcpc3@max', 'a64all@max', 'caps:lse+lse2+lse128', 'a64old@lse2', 'capsold:lse+lse2+lse128'] + deep([], ['a64ll@lse2', 'capsold:lse+lse2+rcpc3'])
ALL_SEQ = NATIVE_X + QEMU
# Other machines (guests): one of each implementation; all of them in the thorough tier.
MACH = ['g:' + x for x in (pa.MACHINES if THOROUGH else ['rv32m', 'rv32amo', 'rv64zabha', 'armv6m', 'msp430', 'avrrmw', 'rv32cas', 'rv64cas', 's390x', 'ppc64le', 'armv5l', 'mips'])]

ALL_OPS = ['load', 'store', 'cas', 'casw', 'upd', 'swap', 'fadd', 'fsub', 'fand', 'fnand', 'for', 'fxor', 'fmax', 'fmin', 'fnot', 'fneg', 'fabs', 'add', 'sub',
           'and', 'or', 'xor', 'not', 'neg', 'bset', 'bclr', 'btog', 'padd', 'psub', 'badd', 'bsub']
def seq(c, ops, types=None, runs=ALL_SEQ + MACH, floats=True, emit=None, rnd=None):
    """Sequential calls of the given operations in every configuration, judged by spec/Ops.tla."""
    jobs = []
    for r in runs:
        q = pa.is_qemu(r)
        rnd_ = rnd or (20000 if THOROUGH else 2000) if not q else (2000 if THOROUGH else 150)
        a = ['seq', 'seed=%d' % SEED, 'random=%d' % rnd_, 'emit=%d' % (emit or (400 if THOROUGH else 60)), 'ops=' + ','.join(ops)]
        if r.startswith('g:'):
            a[2:4] = ['random=%d' % deep(4, 40), 'emit=%d' % min(emit or 60, deep(8, 60)), 'thin=%d' % deep(60 if pa.MACHINES[r[2:]][0].startswith('qemu') else 6, 4)]
        if types:
            a.append('types=' + types)
        jobs.append((r, a))
    res = c.gather(jobs)
    executed = flagged = 0
    for j, (out, err) in res:
        d = json.loads(err.strip().splitlines()[-1])
        executed += d['executed']
        flagged += d['flagged']
    rows = rows_of(res)
    c.log('executed', executed, 'screened-out', flagged, 'rows', len(rows))
    c.cover['calls_executed'] = c.cover.get('calls_executed', 0) + executed
    c.cover['calls_differing_from_mirror'] = c.cover.get('calls_differing_from_mirror', 0) + flagged
    c.cover['configurations'] = runs
    bad = c.judge_rows(rows)
    if flagged and not bad:
        raise pa.ToolError('the mirror of the specification disagrees with it: %d calls' % flagged)

INTS = 'u8,i8,u16,i16,u32,i32,u64,i64,u128,i128,usize,isize'
def C04(c): seq(c, ['fadd', 'fsub', 'add', 'sub', 'fmax', 'fmin', 'fneg', 'neg', 'swap', 'store', 'load'], INTS)
def C05(c): seq(c, ['fand', 'fnand', 'for', 'fxor', 'fnot', 'and', 'or', 'xor', 'not', 'bset', 'bclr', 'btog'], INTS)
def C14(c): seq(c, ['load', 'store', 'swap', 'cas', 'casw', 'fadd', 'fsub', 'fmax', 'fmin', 'fneg', 'fabs', 'upd'], 'f16,f32,f64,f128', emit=200)
def C15(c):
    seq(c, ['load', 'store', 'swap', 'cas', 'casw', 'fand', 'fnand', 'for', 'fxor', 'fnot', 'and', 'or', 'xor', 'not', 'upd'], 'bool', emit=10000)
    hammer(c, 'bool', deep(60000, 2000000))
    bools(c)
def C16(c): seq(c, ['padd', 'psub', 'badd', 'bsub', 'fand', 'for', 'fxor', 'bset', 'bclr', 'btog', 'load', 'store', 'swap', 'cas', 'casw', 'upd'], 'ptr0,ptr1,ptr3,ptr8,ptr24,ptr4096', emit=120)

def C09(c):
    runs = ['x64', 'x64dbg', 'x64det', 'x64no', 'x64cx', 'x64f', 'i686', 'cs', 'a64@v8.0', 'a64lse@lse', 'a64lse2@lse2', 'a64dbg@max', 'a64@lse2', 'x64old', 'i686old', 'x64tsancx', 'a64old@lse2'] + MACH
    res = c.gather([(r, ['ord']) for r in runs])
    c.cover['configurations'] = runs
    c.judge_rows(rows_of(res))

def C17(c):
    runs = ['x64', 'x64dbg', 'x64no', 'x64cx', 'x64f', 'x64fno', 'i686', 'cs', 'a64@v8.0', 'a64lse2@lse2', 'x64old', 'i686old', 'x64tsancx']
    res = c.gather([(r, ['views']) for r in runs] + [(g, ['reports', 'lf=%d' % pa.MACHINES[g[2:]][1]]) for g in MACH])
    c.cover['configurations'] = runs + MACH
    c.judge_rows(rows_of(res))

def C10(c):
    def p(n, design='right', ans='Any', has=None): return [('<- P1', '<- ' + n), ('"right"', '"%s"' % design), ('<- Any', '<- ' + ans)] + ([('{"cx16", "avx"}', has)] if has else [])
    mc(c, 'Dispatch', [p(x) for x in deep(('P1', 'P2', 'P4'), ('P1', 'P2', 'P3', 'P4'))] + [p('P2', ans='None', has='{"avx"}'), p('P2', ans='Avx', has='{"avx"}'), p('P4', 'store', 'One')],
       [p('P2', x) for x in ('store', 'piecewise', 'no_init', 'own_answer', 'ask_again')] + [p('P2', 'piecewise', 'One'), p('P2', 'needs_avx', 'Both'), p('P4', 'avx_only', 'Avx', '{"avx"}'), p('P2', 'assumed', 'None', '{}')])
    runs = ['x64', 'x64dbg', 'x64det', 'x64no', 'x64cx', 'x64@cx16', 'x64@nocx16', 'x64@max', 'x64@noxs', 'x64old', 'x64tsan', 'x64tsancx', 'i686', 'cs', 'a64@v8.0', 'a64@lse', 'a64@lse2', 'a64@max', 'a64lse@lse', 'a64lse2@lse2']
    res = c.gather([(r, ['lf', 'e128=' + pa.e128(r), 'e64=' + pa.e64(r)]) for r in runs])
    res += c.gather([(r, ['first', 'e128=' + pa.e128(r)] + deep([], ['preempt=4', 'stale=4', 'max=400000'])) for r in ('vdet', 'vdet@cx16', 'vdet@nocx16', 'v64', 'v32')])
    told = c.gather([(g, ['reports', 'lf=%d' % pa.MACHINES[g[2:]][1]]) for g in SAYS])
    res += [(j, ('\n'.join(l for l in o.splitlines() if '"q":"lf"' in l), e)) for j, (o, e) in told]
    c.cover['configurations'] = runs + ALLCAPS + SAYS
    c.judge_rows(rows_of(res))
    shapes(c, L.every(deep(['u128'], ['u128', 'i64', 'u8']), not THOROUGH), ALLCAPS + SHAPES[:7], False)

# (what they say about being lock-free, and on the emulated ones whether memory outside the atomic is written)
SAYS = MACH + ['g:' + x for x in deep(['ppc64', 'ppc64@power7', 'rv32lock', 'a64be'], [])]

def C20(c): avail.run(c)

def mc(c, module, good, bad):
    """Checks a design model: its configuration, changed as each of `good` says (pairs of texts), must satisfy
    its properties; changed as each of `bad` says (deliberately broken designs), it must not, or the model
    proves nothing."""
    import tempfile
    base = open(os.path.join(pa.SPEC, module + '.cfg')).read()
    def run(cfgtext, codes):
        fd, path = tempfile.mkstemp(suffix='.cfg')
        with os.fdopen(fd, 'w') as f:
            f.write(cfgtext)
        try:
            return pa.tlc(module, cfg=path, ok_codes=codes, workers=2)
        finally:
            os.unlink(path)
    def changed(*pairs):
        t = base
        for frm, to in pairs:
            if frm not in t:
                raise pa.ToolError('%s: no %r in the configuration' % (module, frm))
            t = t.replace(frm, to)
        return t
    cover = c.cover.setdefault('models', {}).setdefault(module, [])
    with pa.pool(4) as ex:
        ok = [ex.submit(run, changed(*g), (0,)) for g in good]
        no = [ex.submit(run, changed(*b), (11, 12, 13)) for b in bad]
        for g, r in zip(good, ok):
            r = r.result()
            c.add_tlc(r)
            cover.append({'states': r.states, 'transitions': r.transitions, 'configuration': [to for _, to in g]})
        for b, r in zip(bad, no):
            r.result()
            cover.append({'broken_design_rejected': [to for _, to in b]})

def seqlock(c, progs, broken, wide=(), wbroken=()):
    """The design of the sequence lock (spec/SeqLock.tla) in the memory model of the language. `progs`: programs
    run on the narrow counter; `broken`: (program, broken design); `wide`, `wbroken`: the same with a counter of
    two words of two bits each, which overflows."""
    def prog(p): return [('PROGRAMS <- PA', 'PROGRAMS <- ' + p)]
    def w(p, start): return prog(p) + [('WIDE = FALSE', 'WIDE = TRUE'), ('M = 100', 'M = 4'), ('START = 0', 'START = %d' % start)]
    def d(x): return [('"right"', '"%s"' % x)]
    mc(c, 'SeqLock', [prog(p) for p in progs] + [w(p, s) for p in wide for s in (0, 2)],
       [prog(p) + d(x) for p, x in broken] + [w('PF', s) + d(x) for s, x in wbroken])

def acc(c, rows, module, per=15000):
    """Rows that are behaviours of a trace specification (which prints ACC and the row number)."""
    import tempfile
    lines = sorted(rows)
    for k in range(0, len(lines), per):
        part = lines[k:k + per]
        fd, path = tempfile.mkstemp(suffix='.ndjson')
        with os.fdopen(fd, 'w') as f:
            f.write('\n'.join(part) + '\n')
        try:
            r = pa.tlc(module, env={'ROWS': path})
        finally:
            os.unlink(path)
        c.add_tlc(r)
        ok = {int(x) for x in re.findall(r'<<"ACC", (\d+)>>', r.out)}
        for i, l in enumerate(part, 1):
            if i not in ok:
                c.violate('a recorded execution is not a behaviour of ' + module, {'configs': rows[l], 'row': json.loads(l)})
    c.traces += len(lines)
    for l in lines[::max(1, len(lines) // 3)][:3]:
        c.samples.append(json.loads(l))

def C18(c):
    mc(c, 'CritSecMC', [()], [[('"inside"', x)] for x in ('"readout"', '"noclose"', '"unmask"')])
    res = c.gather([('cs', ['cs', 'seed=%d' % SEED, 'n=%d' % (120 if THOROUGH else 40)]), ('csdbg', ['cs', 'seed=%d' % (SEED + 1), 'n=10'])])
    acc(c, rows_of(res), 'CritSecTrace')

MASKING = ['rv32m', 'rv32s', 'rv32amo', 'rv32lock', 'rv32slock', 'rv64m', 'rv64s', 'rv64zabha', 'armv4t', 'armv4tfiq', 'thumbv4t', 'armv5te', 'armv6m', 'msp430', 'avr', 'avrrmw']
def C19(c):
    two = [('{1}', '{1, 2}'), ('FALSE', 'TRUE'), ('NInts = 3', 'NInts = 1'), ('Depth = 2', 'Depth = 1')]
    mc(c, 'Interrupt', [(), two + deep([('NOps = 2', 'NOps = 1')], [])] + deep([], [[('NOps = 2', 'NOps = 3')]]),
       [[('"right"', '"%s"' % d)] for d in ('openread', 'readfirst', 'early', 'savelate', 'leaky', 'enable')] + [[('"right"', '"lockfirst"'), ('FALSE', 'TRUE')]])
    c.log('design')
    jobs = []
    for g in MASKING:
        jobs.append(('g:' + g, ['reports', 'lf=%d' % pa.MACHINES[g][1]]))
        part = ['bool,u8,i16', 'u32,usize,i8', 'i32,isize,u16', 'u64,i64', 'u128', 'i128,ptr1,ptr24', 'f32,f64,ptr8']
        for k, t in enumerate(part):
            jobs.append(('g:' + g, ['int', 'seed=%d' % (SEED + k), 'pairs=%d' % deep(4, 100), 'types=' + t] + (['fiq=1'] if g == 'armv4tfiq' else [])))
    res = c.gather(jobs)
    ran = [json.loads(e.strip().splitlines()[-1]) for (r, a), (o, e) in res if a[0] == 'int']
    c.cover['calls_executed'] = sum(x['executed'] for x in ran)
    c.cover['interrupts_taken'] = sum(x['interrupts'] for x in ran)
    c.cover['configurations'] = MASKING
    rows = rows_of(res)
    c.log('executed', c.cover['calls_executed'], 'rows', len(rows))
    c.judge_rows(rows)

# ------------------------------------------------------------------------------- concurrent programs
WIDE = ['u128', 'i128']
CORE = ['u8', 'i16', 'u32', 'i64', 'bool', 'ptr8', 'usize']
SIMARGS = ['seed=%d' % SEED]
def sim(progs, run='v64', preempt=2, stale=1, mx=None, rnd=0, wrap=0, shards=8):
    return (run, 'sim', progs, SIMARGS + ['preempt=%d' % preempt, 'stale=%d' % stale, 'max=%d' % (mx or deep(20000, 400000)), 'random=%d' % rnd, 'wrap=%d' % wrap], shards)
def stress(progs, run, rounds, shards=1):
    return (run, 'stress', progs, SIMARGS + ['rounds=%d' % rounds], shards)
def conc(c, jobs, timeout=400):
    L.selftest(c)
    res = L.run_many(c, jobs, timeout)
    c.cover['configurations'] = sorted({j[0] + '/' + j[1] for j in jobs})
    L.judge(c, res)
    return res

def singles(types, n, shapes, seed):
    rng = random.Random(seed)
    return [L.rand_single(rng.choice(types), rng, rng.choice(shapes)) for _ in range(n)]

X86 = ['x64', 'x64no', 'x64cx', 'x64det', 'i686']
A64 = ['a64@v8.0', 'a64@lse2', 'a64lse2@lse2']
def hw(progs, n, na=None, x86=X86, a64=A64):
    """Real threads, on the host and on emulated aarch64."""
    return [stress(progs, x, n) for x in x86] + [stress(progs, x, na or max(1, n // 50)) for x in a64]

# AArch64 configurations whose executed instructions are examined (tools/arm.py).
SHAPES = ['a64@v8.0', 'a64@lse', 'a64@lse2', 'a64lse2@lse2', 'a64rcpc3@max', 'a64lse128@max', 'a64all@max', 'caps:lse+lse2+rcpc3', 'caps:lse+lse2+lse128', 'caps:lse2+rcpc3'] + deep(['capsold:lse+lse2+lse128'], ['capsold:lse+lse2+lse128', 'capsold:lse+lse2+rcpc3', 'a64ll@lse2'])
# Guests whose executed instructions are examined (tools/hw.py): Power, total store order, RISC-V.
HWS = ['g:ppc64le', 'g:s390x', 'g:x64l', 'g:x64l@cx16', 'g:rv64cas'] + deep([], ['g:ppc64', 'g:ppc64p8', 'g:s390xz15'])
def on_hw(run, progs):
    # LLVM gives a failing sequentially consistent compare-exchange of core's atomics no leading sync on Power: not the library's.
    own = lambda p: not run.startswith('g:ppc') or all(i[0] not in ('cas', 'casw', 'upd') or L.width(p.locs[i[1]][0], 64) == 128 for t in p.ths for i in t)
    return [p for p in progs if own(p)]
ALLCAPS = ['caps:' + x.replace(',', '+') for x in pa.CAPS]
def shapes(c, progs, runs=None, order=True):
    if order:
        arm.selftest(c, ('arm', 'tso', 'riscv', 'power'))
    arm.programs(c, [(r, on_hw(r, progs)) for r in runs or SHAPES], order)

def bools(c):
    """Booleans under concurrency: every pair of operations, and neighbours in one word."""
    rng = random.Random(SEED + 15)
    m = singles(['bool'], deep(150, 2000), [(2, 2), (1, 1, 1), (2, 1, 1)], SEED + 15) + L.contention(['bool']) + L.independent(['bool'], rng, deep(10, 100))
    conc(c, [sim(m, 'v64', 2, 2), sim(m, 'v32', 2)] + hw(m[::4], deep(300, 10000)))

HAMMER = 'u8,i8,u16,i16,u32,i32,u64,i64,usize,isize,bool,ptr0,ptr8,ptr24,f32,f64,u128,i128'
def hammer(c, types=HAMMER, n=None, runs=X86 + ['x64old', 'x64tsancx', 'x64@nocx16'] + A64 + ['a64@lse']):
    """Contended read-modify-writes on real threads; the counted results must form one chain of values."""
    jobs = []
    for r in runs:
        k = (n or deep(20000, 1000000)) // (100 if pa.is_qemu(r) else 1)
        for part in filter(None, (types.split(',')[0::2], types.split(',')[1::2])):
            jobs.append((r, ['hammer', 'types=' + ','.join(part), 'n=%d' % k, 'seed=%d' % SEED]))
    res = c.gather(jobs)
    rows = rows_of(res)
    c.cover['contended_chains'] = c.cover.get('contended_chains', 0) + len(rows)
    c.judge_rows(rows)
    c.log('hammered', len(rows))

# Machines on which another processor changes the value at every instruction of a call.
MEDDLED = ['s390x', 's390xz15', 'ppc64le', 'ppc64', 'a64be', 'a64l@v8.0', 'a64l', 'a64l2', 'x64l', 'x64l@cx16', 'i686l'] + deep([], ['ppc64p8', 'a64be2', 'a64l@lse', 'mips', 'loong', 'sparc64', 'armv5l'])
def meddled(c, ops, types=None, on=None):
    """Whatever another processor does to the value or around it, and wherever, a call takes effect at one point."""
    jobs = [('g:' + g, ['others', 'seed=%d' % SEED, 'types=' + (types or 'all'), 'ops=' + ','.join(ops)]) for g in ('rv32cas', 'rv64cas')]
    for g in on or MEDDLED:
        wide = ['u64', 'i64'] if g == 'i686l' else ['u128', 'i128'] if pa.MACHINES[g][1] == 128 else ['u32', 'i8']
        some = [(wide[0], ops), (wide[1], [o for o in ops if o in ('fmax', 'fmin', 'fabs', 'add', 'sub')])]
        if g in ('x64l', 'i686l'):
            few = [o for o in ops if o in ('fnot', 'fneg', 'not', 'neg', 'bset', 'bclr', 'btog')]
            some += [('u8,u32', few), ('u16,u64', few), ('bool,f64', ops)]
        if THOROUGH:
            some = [(t, ops) for t in INTS.split(',') + ['bool', 'ptr1', 'ptr24', 'f32,f64']]
        for t, o in [(types, ops)] if types else some:
            for k in range(0, len(o), 7):
                jobs.append(('g:' + g, ['others', 'seed=%d' % (SEED + k), 'types=' + t, 'ops=' + ','.join(o[k:k + 7])]))
    res = c.gather(jobs)
    ran = [json.loads(e.strip().splitlines()[-1]) for (r, a), (o, e) in res]
    c.cover['meddled_calls'] = c.cover.get('meddled_calls', 0) + sum(x['executed'] for x in ran)
    c.cover['meddled_on'] = sorted({*c.cover.get('meddled_on', []), 'rv32cas', 'rv64cas', *(on or MEDDLED)})
    c.judge_rows(rows_of(res))
    c.log('meddled', c.cover['meddled_calls'])

def C01(c):
    meddled(c, ['load', 'store', 'swap'])
    meddled(c, ['not', 'neg', 'add', 'nand', 'max', 'cas'], 'u64', ['i686l'])
    meddled(c, ['not', 'neg', 'add', 'nand', 'max', 'cas'], 'u128', ['x64l', 'a64l2', 's390x', 'ppc64le'])
    seqlock(c, ['PA', 'PB', 'PE'], [('PB', x) for x in ('no_fence_r', 'no_fence_w', 'weak_lo0', 'weak_lock', 'weak_unlock')], ['PB'])
    t = L.tearing(['u128', 'i128'])
    r = singles(WIDE, deep(120, 1500), [(2, 2), (1, 1, 1), (1, 2)], SEED)
    s = L.tearing(['u128', 'u64'])
    hammer(c, 'u128,i128', runs=['x64', 'x64no', 'x64cx', 'x64det', 'i686', 'x64@nocx16', 'a64@v8.0', 'a64@lse2', 'a64lse2@lse2'])
    conc(c, [sim(t, 'v64', deep(3, 4)), sim(t, 'v32', deep(2, 3)), sim(r, 'v64', deep(2, 3)), sim(r, 'v32', 2), sim(t, 'v64', 1, 3, rnd=200), sim(t, 'v32', 1, 2, rnd=200)]
         + hw(s, deep(2000, 60000)))
    shapes(c, L.every(deep(['u128'], ['u128', 'i128'])), SHAPES + ['a64lse@lse', 'a64no@v8.0'] + deep([], ALLCAPS), False)

def C02(c):
    meddled(c, [o for o in ALL_OPS if o not in ('load', 'store', 'cas', 'casw', 'upd', 'swap')])
    hammer(c)
    sh = [(2, 2), (1, 1, 1), (3, 2), (1, 2, 1)]
    r = singles(WIDE, deep(200, 3000), sh, SEED + 2)
    k = singles(CORE + ['i8', 'u16', 'i32', 'f32', 'f64'], deep(200, 3000), sh, SEED + 3)
    k32 = [p for p in k if p.locs[0][0] not in ('ptr8', 'usize')]
    h = singles(['u128', 'u128', 'u64', 'u8', 'i16', 'bool', 'f64', 'i32'], deep(40, 400), [(2, 2), (3, 3), (2, 2, 2)], SEED + 4)
    y = L.relay(WIDE)
    conc(c, [sim(y, 'v64', 0, 6), sim(y, 'v32', 0, 6), sim(y, 'v64', 2, 1), sim(r, 'v64', 2), sim(r, 'v32', 2), sim(r, 'v64', 0, 4), sim(k, 'v64', deep(2, 3), 2), sim(k32, 'v32', 2), sim(r[:60], 'v64', 1, 1, rnd=100), sim(r[:40], 'vdet', 2, 1), sim(r[:40], 'vdet@nocx16', 2, 0)] + hw(h, deep(800, 30000)))
    shapes(c, L.contention(['u128']) + L.relay(['u128']) + singles(['u128', 'i128', 'u64', 'u8'], deep(20, 200), [(2, 2)], SEED + 5), deep(SHAPES[0:8:2], None))

def C07(c):
    ty = ['u128', 'u64', 'u8', 'i32', 'bool', 'ptr8', 'f32']
    m = L.message_passing(ty) + L.coherence(ty + ['i128'])
    p = L.mp_pairs(['u128', 'u64', 'i128'])
    m32 = L.message_passing(['u128', 'u64', 'i16']) + L.coherence(['u128'])
    h = L.mp_pairs(['u128', 'u64', 'u16']) + L.coherence(['u128', 'u64'])
    if THOROUGH:
        m += L.message_passing(['i128', 'u16', 'i8', 'f64', 'usize', 'u32', 'i64', 'i16', 'ptr0', 'ptr24'])
    y = L.relay(['u128', 'i64', 'bool', 'f64', 'ptr8'])
    kp = L.keeps(['u128', 'u64', 'u8', 'bool', 'i32', 'f64', 'ptr8', 'i16'])
    h += L.keeps(['u128', 'u64', 'bool'])
    old = L.failures(['u64', 'u8', 'bool', 'ptr8'])
    conc(c, [sim(old, 'vold', 0, 6), sim(L.failures(['u128', 'i16', 'f64']), 'v64', 0, 6), sim(kp, 'v64', 1, 3), sim(L.keeps(['u128', 'i64']), 'v32', 1, 3), sim(y, 'v64', 0, 6), sim(L.relay(['i128']), 'v32', 0, 6), sim(m + p, 'v64', 0, 6), sim(m, 'v64', deep(2, 3), 2), sim(p, 'v64', deep(2, 3), 2), sim(p, 'v32', 2, deep(1, 2)), sim(m32, 'v32', 2, 1)] + hw(h, deep(600, 30000)))
    shapes(c, L.message_passing(deep(['u128'], ['u128', 'u64', 'u8'])) + L.coherence(['u128']) + L.mp_pairs(['u128'], (64,)) + L.relay(['u128']) + L.keeps(['u128']) + L.failures(['u128']), deep(SHAPES, SHAPES + ALLCAPS) + HWS)

def C08(c):
    ty = ['u128', 'u64', 'u32', 'bool']
    m = L.seqcst(['u128', 'u64'], (16, 1072)) + L.seqcst(['u128', 'u8', 'i32', 'bool', 'f32', 'ptr8'], (), True) + L.seqcst(['u32', 'bool', 'f64'], (64,), False)
    m32 = L.seqcst(['u128', 'u64'], (16, 1072))
    h = L.seqcst(['u128', 'u64'], (64, 1072))
    two = [p for p in m if len(p.ths) == 2]
    conc(c, [sim(m, 'v64', deep(2, 3), deep(1, 2)), sim(m32, 'v32', 2, 1), sim(two, 'v64', 0, 6), sim([p for p in m32 if len(p.ths) == 2], 'v32', 0, 8)] + hw(h, deep(400, 20000), a64=[]))
    shapes(c, L.seqcst(['u128', 'u64'], (64,), True), deep(SHAPES, SHAPES + ALLCAPS) + HWS)

def C11(c):
    seqlock(c, ['PC', 'PD', 'PE'], [('PD', 'no_restore'), ('PD', 'early_unlock'), ('PB', 'barge')], ['PD'])
    m = L.recovery(['u128', 'i128']) + L.contention(['u128'])
    k = L.recovery(['u64', 'bool', 'ptr8', 'f64'])
    res = conc(c, [sim(m, 'v64', deep(2, 3), wrap=0), sim(m, 'v32', 2), sim(k, 'v64', 2), sim(m, 'v64', 1, 1, wrap=1), sim(m, 'v32', 1, 1, wrap=1)])

def C13(c):
    seqlock(c, [], [('PB', 'no_count'), ('PB', 'no_look'), ('PB', 'no_check')], ['PB', 'PF'],
            [(0, x) for x in ('weak_hi0', 'weak_lo1', 'hi_first', 'carry_late', 'no_carry')])
    res = c.gather([(r, ['ver']) for r in ('v64', 'v32')])
    rows = rows_of(res)
    c.cover['version_histories'] = len(rows)
    c.judge_rows(rows)
    m = L.versions(['u128'])
    o = L.overflow(['u128'])
    conc(c, [sim(m, 'v64', deep(3, 4), wrap=1), sim(m, 'v32', deep(2, 3), deep(1, 2), wrap=1), sim(o, 'v32', deep(2, 3), deep(1, 3), wrap=1)])

def C03(c):
    meddled(c, ['cas', 'casw', 'upd'])
    hammer(c, 'u8,i16,u32,u64,u128,i128,bool,ptr8,f32,f64')
    seq(c, ['cas', 'casw'], emit=deep(40, 300))
    ty = ['u128', 'i128', 'u64', 'u8', 'i16', 'bool', 'ptr8', 'f32', 'f64']
    m = L.contention(['u128', 'i128'])
    k = L.contention([t for t in ty if t not in WIDE])
    h = L.contention(['u128', 'u64', 'i16', 'f64', 'bool'])
    conc(c, [sim(m, 'v64', deep(2, 3)), sim(m, 'v32', 2), sim(k, 'v64', deep(2, 3), 2), sim(L.contention(['u64', 'i8', 'f32']), 'v32', 2)] + hw(h, deep(800, 30000)))
    shapes(c, L.contention(['u128', 'u64']), deep(SHAPES[1:8:2], None))

def C06(c):
    runs = ALL_SEQ + MACH
    res = c.gather([(r, ['inj', 'seed=%d' % SEED, 'random=%d' % deep(0, 400)]) for r in runs])
    c.judge_rows(rows_of(res))
    rng = random.Random(SEED + 6)
    u = L.updates(['u128', 'i128'], rng, deep(60, 600))
    k = L.updates(['u64', 'i8', 'bool', 'ptr8', 'f32', 'f64', 'u16'], rng, deep(20, 200))
    h = L.updates(['u128', 'u64', 'bool', 'f64'], rng, deep(6, 100))
    conc(c, [sim(u, 'v64', deep(2, 3)), sim(u, 'v32', 2), sim(k, 'v64', 2, 2)] + hw(h, deep(600, 20000)))

def C12(c):
    rng = random.Random(SEED + 12)
    seq(c, [o for o in ALL_OPS], runs=['x64', 'x64no', 'x64cx', 'x64f', 'i686', 'cs', 'x64old', 'i686old', 'a64@v8.0', 'a64lse2@lse2'] + MACH, emit=deep(20, 200), rnd=200)
    meddled(c, ['store', 'swap', 'fadd', 'fxor', 'not', 'btog', 'cas'], deep('u8,bool', 'u8,i16,bool,u32'), ['s390x', 'ppc64le', 'a64l', 'mips', 'x64l', 'i686l', 'loong'])
    i = L.independent(['u128', 'i128'], rng, deep(30, 400))
    k = L.independent(['u8', 'i16', 'u32', 'bool', 'u64', 'f32', 'ptr8'], rng, deep(15, 200))
    h = L.independent(['u8', 'bool', 'i16', 'u128', 'f32'], rng, deep(5, 80))
    conc(c, [sim(i, 'v64', deep(2, 3)), sim(i, 'v32', 2), sim(k, 'v64', 2)] + hw(h, deep(600, 20000)))

CHECKS = {k: v for k, v in globals().items() if re.fullmatch(r'C\d\d', k)}
