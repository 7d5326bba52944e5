"""Builds the harness in the supported configurations, runs it, and has TLC judge what it recorded."""
import concurrent.futures as cf, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
REPO = '/repo'
TARGET = os.path.join(VERIF, 'target')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
THOROUGH = TIER == 'thorough'
JAVA = ['java', '-XX:+UseParallelGC']
TLA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

class ToolError(Exception):
    pass

# ----------------------------------------------------------------------------------- configurations
X, I, A = 'x86_64-unknown-linux-gnu', 'i686-unknown-linux-gnu', 'aarch64-unknown-linux-gnu'
CS_FLAGS = '--cfg portable_atomic_no_outline_atomics --cfg portable_atomic_no_atomic_cas --cfg portable_atomic_no_cfg_target_has_atomic'
F16 = '--cfg portable_atomic_unstable_f16 --cfg portable_atomic_unstable_f128'
NOASM = '--cfg portable_atomic_no_asm'
# what build.rs sets for old compilers (the library then takes other paths, which a new compiler can build too)
OLD = ' '.join('--cfg portable_atomic_' + x for x in ('pre_llvm_16', 'pre_llvm_18', 'pre_llvm_20', 'no_stronger_failure_ordering', 'no_atomic_min_max', 'no_strict_provenance', 'no_strict_provenance_atomic_ptr', 'no_cmpxchg16b_target_feature',
                                                      'no_const_mut_refs', 'no_const_raw_ptr_deref', 'no_const_transmute', 'no_track_caller', 'no_diagnostic_namespace', 'no_unsafe_op_in_unsafe_fn', 'no_core_unwind_safe'))
TSAN = '--cfg portable_atomic_sanitize_thread'      # set under ThreadSanitizer: compiler intrinsics instead of assembly
# name: (toolchain, target, RUSTFLAGS, harness features, profile)
BUILDS = {
    'x64':     ('1.99.1', X, '', '', 'release'),
    'x64dbg':  ('1.99.1', X, '', '', 'dev'),
    'x64det':  ('1.99.1', X, '--cfg portable_atomic_test_detect_false', '', 'release'),
    'x64no':   ('1.99.1', X, '--cfg portable_atomic_no_outline_atomics', '', 'release'),
    'x64nostd': ('1.99.1', X, '--cfg portable_atomic_no_outline_atomics', 'std', 'release'),
    'x64cx':   ('1.99.1', X, '-C target-feature=+cmpxchg16b', '', 'release'),
    'x64avx':  ('1.99.1', X, '-C target-feature=+cmpxchg16b,+avx', '', 'release'),
    'x64f':    ('nightly', X, F16, '', 'release'),
    'x64fno':  ('nightly', X, F16 + ' --cfg portable_atomic_no_outline_atomics', '', 'release'),
    'i686':    ('1.99.1', I, '', '', 'release'),
    'a64':     ('1.99.1', A, '', '', 'release'),
    'a64dbg':  ('1.99.1', A, '', '', 'dev'),
    'a64lse':  ('1.99.1', A, '-C target-feature=+lse', '', 'release'),
    'a64lse2': ('1.99.1', A, '-C target-feature=+lse,+lse2', '', 'release'),
    'a64caps': ('1.99.1', A, '', 'caps', 'release'),
    'a64rcpc3': ('1.99.1', A, '-C target-feature=+lse,+lse2 --cfg portable_atomic_target_feature="rcpc3"', '', 'release'),
    'a64lse128': ('1.99.1', A, '-C target-feature=+lse,+lse2 --cfg portable_atomic_target_feature="lse128"', '', 'release'),
    'a64all': ('1.99.1', A, '-C target-feature=+lse,+lse2 --cfg portable_atomic_target_feature="lse128" --cfg portable_atomic_target_feature="rcpc3"', '', 'release'),
    'a64no':   ('1.99.1', A, '--cfg portable_atomic_no_outline_atomics', '', 'release'),
    'x64old':  ('1.99.1', X, OLD, '', 'release'),
    'i686old': ('1.99.1', I, OLD, '', 'release'),
    'x64tsan': ('nightly', X, TSAN, '', 'release'),
    'x64tsancx': ('nightly', X, '-C target-feature=+cmpxchg16b ' + TSAN, '', 'release'),
    'a64old':  ('1.99.1', A, OLD, '', 'release'),
    'a64capsold': ('1.99.1', A, OLD, 'caps', 'release'),
    'a64ll':   ('1.99.1', A, '-C target-feature=+lse,+lse2 --cfg portable_atomic_ll_sc_rmw', '', 'release'),
    'cs':      ('1.99.1', X, CS_FLAGS, 'cs', 'release'),
    'csdbg':   ('1.99.1', X, CS_FLAGS, 'cs', 'dev'),
    # simulation builds: `core` is replaced by shim/pa_core.rs, so the library's own accesses are interposed
    'v64':     ('1.99.1', X, NOASM, 'sim', 'release'),        # narrow sequence lock, all core types
    'v32':     ('1.99.1', I, NOASM, 'sim', 'release'),        # wide sequence lock
    'v64std':  ('1.99.1', X, NOASM, 'sim,std', 'release'),
    'vold':    ('1.99.1', X, NOASM + ' ' + OLD, 'sim', 'release'),
    'vdet':    ('1.99.1', X, '', 'sim', 'release'),           # run-time detection, with assembly
}
BUILDS['bare'] = ('1.99.1', X, '', 'bare', 'release')    # drives a program on another machine (crate `bare`)
SIM = ('v64', 'v32', 'v64std', 'vold', 'vdet')
# Programs for other machines, run by the emulators in harness/src/bare or by qemu. name: (target, RUSTFLAGS, features, build directory)
AVRL = ' '.join('-C link-arg=' + x for x in ('--image-base=0x800', '-zmax-page-size=16', '-Ttext=0x10000', '-Tbss=0x1000', '--section-start=.rodata=0x2000'))
MSPL = '-C link-arg=--image-base=0x800 -C link-arg=-zmax-page-size=16'
INTS_, ALL_ = 'small,mid,w64,w128,ptr', 'small,mid,w64,w128,ptr,float'
RV64IM = os.path.join(VERIF, 'bare', 'targets', 'riscv64im-unknown-none-elf.json')
RV64IMA = RV64IM.replace('riscv64im-', 'riscv64ima-')
GUESTS = {
    'rv32m': ('riscv32i-unknown-none-elf', '', ALL_ + ',single', 'rv32'),
    'rv32s': ('riscv32i-unknown-none-elf', '', ALL_ + ',single,smode', 'rv32'),
    'rv32amo': ('riscv32i-unknown-none-elf', '', ALL_ + ',single,amo', 'rv32'),
    'rv32lock': ('riscv32ima-unknown-none-elf', '', ALL_ + ',privileged', 'rv32lock'),
    'rv32slock': ('riscv32ima-unknown-none-elf', '', ALL_ + ',privileged,smode', 'rv32lock'),
    'rv64m': (RV64IM, '-C relocation-model=static', ALL_ + ',single', 'rv64'),
    'rv64s': (RV64IM, '-C relocation-model=static', ALL_ + ',single,smode', 'rv64'),
    'rv64zabha': (RV64IM, '-C relocation-model=static -C target-feature=+zaamo,+zabha', ALL_ + ',single', 'rv64z'),
    'armv4t': ('armv4t-none-eabi', '', ALL_ + ',single', 'armv4t'),
    'armv4tfiq': ('armv4t-none-eabi', '', ALL_ + ',single,fiq', 'armv4t'),
    'thumbv4t': ('thumbv4t-none-eabi', '', ALL_ + ',single', 'thumbv4t'),
    'armv5te': ('armv5te-none-eabi', '', ALL_ + ',single', 'armv5te'),
    'armv6m': ('thumbv6m-none-eabi', '', ALL_ + ',single', 'armv6m'),
    'msp430': ('msp430-none-elf', MSPL, INTS_, 'msp430'),
    'avr': ('avr-none', AVRL + ' -C target-cpu=atmega1284p', INTS_, 'avr'),
    'avrrmw': ('avr-none', AVRL + ' -C target-cpu=atxmega128a1u', INTS_, 'avrrmw'),
    'rv32cas': ('riscv32ima-unknown-none-elf', '-C target-feature=+zacas --cfg portable_atomic_target_feature="zacas"', ALL_, 'rv32c'),
    'rv64cas': (RV64IMA, '-C relocation-model=static -C target-feature=+zacas --cfg portable_atomic_target_feature="zacas"', ALL_, 'rv64c'),
}
# The same under Linux, by qemu. (8- and 16-bit atomics of armv5te are the toolchain's, and wrong there: DESIGN.md.)
LIN = '-C relocation-model=static -C target-feature=+crt-static'
for _n, _t, _f in [('s390x', 's390x-unknown-linux-gnu', ''), ('ppc64le', 'powerpc64le-unknown-linux-gnu', ''), ('ppc64', 'powerpc64-unknown-linux-gnuelfv2', '-C relocation-model=static -C target-feature=-crt-static'),
                   ('s390xz15', 's390x-unknown-linux-gnu', '-C target-cpu=z15'), ('ppc64p8', 'powerpc64-unknown-linux-gnuelfv2', '-C target-cpu=pwr8'),
                   ('a64be', 'aarch64_be-unknown-linux-gnu', ''), ('a64be2', 'aarch64_be-unknown-linux-gnu', '-C target-feature=+lse,+lse2'), ('mips', 'mips-unknown-linux-gnu', ''), ('loong', 'loongarch64-unknown-linux-gnu', ''),
                   ('sparc64', 'sparc64-unknown-linux-gnu', ''), ('x64l', X, ''), ('i686l', I, ''), ('a64l', A, ''), ('a64l2', A, '-C target-feature=+lse,+lse2'), ('armv5l', 'armv5te-unknown-linux-gnueabi', '')]:
    GUESTS[_n] = (_t, _f if 'crt-static' in _f else (LIN + ' ' + _f).strip(), (ALL_.replace('small,', '') if _n == 'armv5l' else ALL_) + ',linux', _n)
# the processor each runs on, and up to how many bits its atomics are lock-free
MACHINES = {
    'rv32m': ('rv32', 128), 'rv32s': ('rv32+s', 128), 'rv32amo': ('rv32+aamo', 128), 'rv32lock': ('rv32+m+lrsc+aamo', 32), 'rv32slock': ('rv32+s+m+lrsc+aamo', 32),
    'rv64m': ('rv64+m', 128), 'rv64s': ('rv64+m+s', 128), 'rv64zabha': ('rv64+m+aamo+abha', 128),
    'armv4t': ('armv4t', 128), 'armv4tfiq': ('armv4t', 128), 'thumbv4t': ('armv4t', 128), 'armv5te': ('armv5te', 128), 'armv6m': ('armv6m', 128),
    'msp430': ('msp430', 128), 'avr': ('avr', 128), 'avrrmw': ('avr+rmw+xmega', 128),
    'rv32cas': ('rv32+m+lrsc+aamo+acas', 64), 'rv64cas': ('rv64+m+lrsc+aamo+acas', 128),
    's390x': ('qemu!qemu-s390x', 128), 'ppc64le': ('qemu:qemu-ppc64le', 128), 'ppc64': ('qemu!qemu-ppc64', 128), 'a64be': ('qemu!qemu-aarch64_be', 128),
    'mips': ('qemu!qemu-mips', 32), 'loong': ('qemu:qemu-loongarch64', 64), 'sparc64': ('qemu!qemu-sparc64', 64), 'armv5l': ('qemu:qemu-arm', 64),
    'x64l': ('qemu:qemu-x86_64 -cpu max', 128), 'x64l@cx16': ('qemu:qemu-x86_64 -cpu Nehalem', 128), 'x64l@nocx16': ('qemu:qemu-x86_64 -cpu qemu64,-cx16', 64), 'i686l': ('qemu:qemu-i386', 64),
    'a64l': ('qemu:qemu-aarch64 -cpu max', 128), 'a64l@v8.0': ('qemu:qemu-aarch64 -cpu cortex-a53', 128), 'a64l@lse': ('qemu:qemu-aarch64 -cpu neoverse-n1', 128), 'a64l2': ('qemu:qemu-aarch64 -cpu max', 128),
    'ppc64@power7': ('qemu!qemu-ppc64 -cpu power7', 64), 's390xz15': ('qemu!qemu-s390x', 128), 'ppc64p8': ('qemu!qemu-ppc64', 128), 'a64be2': ('qemu!qemu-aarch64_be', 128),
}
QA = ['qemu-aarch64', '-L', '/usr/aarch64-linux-gnu', '-cpu']
QX = ['qemu-x86_64', '-cpu']
# run name: (build, runner, is a 128-bit atomic lock-free here)
RUNS = {
    'x64': ('x64', [], 'host'), 'x64dbg': ('x64dbg', [], 'host'), 'x64det': ('x64det', [], 'no'), 'x64no': ('x64no', [], 'no'),
    'x64nostd': ('x64nostd', [], 'no'), 'x64cx': ('x64cx', [], 'yes'), 'x64avx': ('x64avx', [], 'yes'),
    'x64f': ('x64f', [], 'host'), 'x64fno': ('x64fno', [], 'no'),
    'x64@cx16': ('x64', QX + ['Nehalem'], 'yes'),          # cmpxchg16b, no AVX
    'x64@nocx16': ('x64', QX + ['qemu64,-cx16'], 'no'),    # neither
    'x64@max': ('x64', QX + ['max'], 'yes'),               # both
    'x64cx@cx16': ('x64cx', QX + ['Nehalem'], 'yes'),
    'x64@noxs': ('x64', QX + ['max,-xsave'], 'yes'),       # AVX, but the operating system has not enabled it
    'x64old': ('x64old', [], 'host'), 'i686old': ('i686old', [], 'no'), 'x64tsan': ('x64tsan', [], 'host'), 'x64tsancx': ('x64tsancx', [], 'yes'),
    'a64old@lse2': ('a64old', QA + ['neoverse-v1'], 'yes'),
    'a64ll@lse2': ('a64ll', QA + ['neoverse-v1'], 'yes'),
    'i686': ('i686', [], 'no'),
    'a64@v8.0': ('a64', QA + ['cortex-a53'], 'yes'),
    'a64@lse': ('a64', QA + ['neoverse-n1'], 'yes'),
    'a64@lse2': ('a64', QA + ['neoverse-v1'], 'yes'),
    'a64@max': ('a64', QA + ['max'], 'yes'),
    'a64dbg@max': ('a64dbg', QA + ['max'], 'yes'),
    'a64dbg@v8.0': ('a64dbg', QA + ['cortex-a53'], 'yes'),
    'a64no@v8.0': ('a64no', QA + ['cortex-a53'], 'yes'),
    'a64lse@lse': ('a64lse', QA + ['neoverse-n1'], 'yes'),
    'a64lse@lse2': ('a64lse', QA + ['neoverse-v1'], 'yes'),
    'a64lse2@lse2': ('a64lse2', QA + ['neoverse-v1'], 'yes'),
    'a64lse2@max': ('a64lse2', QA + ['max'], 'yes'),
    'a64rcpc3@max': ('a64rcpc3', QA + ['max'], 'yes'),
    'a64lse128@max': ('a64lse128', QA + ['max'], 'yes'),
    'a64all@max': ('a64all', QA + ['max'], 'yes'),
    'cs': ('cs', [], 'no'),
    'csdbg': ('csdbg', [], 'no'),
    'v64': ('v64', [], 'no'), 'v32': ('v32', [], 'no'), 'v64std': ('v64std', [], 'no'), 'vold': ('vold', [], 'no'), 'vdet': ('vdet', [], 'host'),
    'vdet@cx16': ('vdet', QX + ['Nehalem'], 'yes'), 'vdet@nocx16': ('vdet', QX + ['qemu64,-cx16'], 'no'),
}
# Processors reporting these features, run-time detection deciding (lse128 and rcpc3 instructions are emulated).
CAPS = ['', 'lse', 'lse,lse2', 'lse,lse2,rcpc3', 'lse,lse2,lse128', 'lse,lse2,rcpc3,lse128', 'lse2', 'lse2,rcpc3', 'lse2,rcpc3,lse128', 'rcpc3,lse128', 'lse,rcpc3,lse128', 'lse,rcpc3', 'lse,lse128']
ENVS = {}
for _c in CAPS:
    RUNS['caps:' + _c.replace(',', '+')] = ('a64caps', QA + ['max'], 'yes')
    ENVS['caps:' + _c.replace(',', '+')] = {'PA_CAPS': ',' + _c + ','}
for _c in ('lse,lse2,rcpc3', 'lse,lse2,lse128'):
    RUNS['capsold:' + _c.replace(',', '+')] = ('a64capsold', QA + ['max'], 'yes')
    ENVS['capsold:' + _c.replace(',', '+')] = {'PA_CAPS': ',' + _c + ','}
for _g in MACHINES:
    RUNS['g:' + _g] = ('bare', [], 'any')
NIGHTLY = '/root/.rustup/toolchains/nightly-x86_64-unknown-linux-gnu/lib/rustlib/x86_64-unknown-linux-gnu/bin/gcc-ld/ld.lld'
def guest_args(run):
    """The arguments that make the harness work on a guest's atomics."""
    if not run.startswith('g:'):
        return []
    return ['guest=' + guest(run[2:]), 'machine=' + MACHINES[run[2:]][0]]
def guest(name):
    """Builds the guest program from /repo's current tree; returns the executable."""
    name = name.split('@')[0]
    target, flags, feats, where = GUESTS[name]
    with _guard:
        lk = _locks.setdefault(('guest', where), threading.Lock())
    with lk:
        r = _built.get(('guest', name))
        if isinstance(r, Exception):
            raise r
        if r:
            return r
        tdir = os.path.join(TARGET, 'bare-' + where)
        lld = os.path.join(VERIF, 'tools', 'avrld') if target.startswith('avr') else NIGHTLY
        flags = '-C linker=%s -C linker-flavor=ld -C link-arg=-e_start -C link-arg=--gc-sections %s' % (lld, flags)
        p = subprocess.run(['cargo', '+nightly', 'build', '--offline', '--release', '-Zbuild-std=core', *(['-Zbuild-std-features=compiler-builtins-mem'] if 'linux' in feats else []), '-Zjson-target-spec', '--target', target, '--features', feats, '--target-dir', tdir],
                           cwd=os.path.join(VERIF, 'bare'), env=cargo_env(flags), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            r = _built[('guest', name)] = ToolError('build of the guest %s failed:\n%s' % (name, p.stdout[-6000:]))
            raise r
        exe = os.path.join(tdir, os.path.basename(target).replace('.json', ''), 'release', 'pa-bare' + ('.elf' if target.startswith('avr') else ''))
        mine = os.path.join(tdir, name + '.elf')     # (another guest built here would overwrite it)
        shutil.copyfile(exe, mine)
        os.chmod(mine, 0o755)
        _built[('guest', name)] = mine
        return mine
def is_qemu(run): return bool(RUNS[run][1])
def host_cx16():
    try:
        return any('cx16' in l.split() for l in open('/proc/cpuinfo') if l.startswith('flags'))
    except OSError:
        return False
def e128(run):
    e = RUNS[run][2]
    return ('yes' if host_cx16() else 'no') if e == 'host' else e
def e64(run): return 'yes' if RUNS[run][0].startswith('i686') else 'any'

def cargo_env(flags):
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'RUSTDOCFLAGS', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET', 'RUSTC_WRAPPER', 'RUSTUP_TOOLCHAIN', 'CARGO_ENCODED_RUSTFLAGS'):
        e.pop(k, None)
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/bin:/bin')
    e.update(CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTFLAGS=flags, CARGO_INCREMENTAL='0',
             CARGO_TARGET_AARCH64_UNKNOWN_LINUX_GNU_LINKER='aarch64-linux-gnu-gcc',
             CARGO_TARGET_I686_UNKNOWN_LINUX_GNU_LINKER='i686-linux-gnu-gcc')
    return e

_locks, _built, _guard = {}, {}, threading.Lock()
def shim(target, tdir):
    """Compiles the stand-in for `core`; returns the flags that put it in its place."""
    src = os.path.join(VERIF, 'shim', 'pa_core.rs')
    out = os.path.join(tdir, 'shim-' + hashlib.sha256(open(src, 'rb').read()).hexdigest()[:12])
    lib = os.path.join(out, 'libpa_core.rlib')
    if not os.path.exists(lib):
        os.makedirs(out, exist_ok=True)
        p = subprocess.run(['rustc', '+1.99.1', '--edition', '2024', '--crate-type', 'rlib', '--crate-name', 'pa_core', '-O',
                            '--target', target, '--out-dir', out, src], env=cargo_env(''), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise ToolError('building the stand-in for core failed:\n' + p.stdout[-4000:])
    return '-L %s --extern core=%s' % (out, lib)

def build(name, crate='harness', binary='pa-harness'):
    """Builds one configuration of a harness crate from /repo's current tree; returns the executable."""
    with _guard:
        lk = _locks.setdefault((name, crate), threading.Lock())
    with lk:
        if (name, crate) in _built:
            r = _built[(name, crate)]
            if isinstance(r, Exception):
                raise r
            return r
        tc, target, flags, feats, profile = BUILDS[name]
        tdir = os.path.join(TARGET, crate + '-' + name)
        cmd = ['cargo', '+' + tc, 'build', '--offline', '--target', target, '--target-dir', tdir]
        if profile == 'release':
            cmd.append('--release')
        if feats:
            cmd += ['--features', feats]
        if 'sim' in feats.split(','):
            cmd.append('--no-default-features')
            flags += ' ' + shim(target, tdir)
        p = subprocess.run(cmd, cwd=os.path.join(VERIF, crate), env=cargo_env(flags), stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            r = ToolError('build of %s (%s) failed:\n%s' % (crate, name, p.stdout[-6000:]))
            _built[(name, crate)] = r
            raise r
        exe = os.path.join(tdir, target, 'release' if profile == 'release' else 'debug', binary)
        _built[(name, crate)] = exe
        return exe

class Crash(Exception):
    """The code under test ended the process or never came back."""
    def __init__(self, what, run, args, out):
        super().__init__(what)
        self.what, self.run, self.args_, self.out = what, run, args, out

def run_harness(run, args, timeout=240, env=None, exe=None):
    b, runner, _ = RUNS[run]
    exe = exe or build(b)
    e = dict(os.environ)
    e.update(ENVS.get(run, {}))
    e.update(env or {})
    args = args + guest_args(run)
    p = subprocess.Popen(runner + [exe] + args, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        raise Crash('no operation completed within %d s (hang)' % timeout, run, args, out.decode('utf-8', 'replace')[-2000:])
    if p.returncode == 2 or p.returncode == 101:
        raise ToolError('harness %s %s: %s' % (run, args, err.decode('utf-8', 'replace')[-2000:]))
    if p.returncode in (-9, 137):
        raise ToolError('harness %s %s was killed (out of memory?)' % (run, args))
    if p.returncode != 0:
        raise Crash('the process ended with status %d: %s' % (p.returncode, err.decode('utf-8', 'replace')[-500:]), run, args, out.decode('utf-8', 'replace')[-2000:])
    return out.decode('utf-8', 'replace'), err.decode('utf-8', 'replace')

# ----------------------------------------------------------------------------------- TLC
class TlcResult:
    def __init__(self, out):
        self.out = out
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        self.states = int(m[-1][1]) if m else 0
        self.transitions = int(m[-1][0]) if m else 0

def tlc(module, cfg=None, env=None, workers=8, timeout=700, args=(), heap='4g', ok_codes=(0,)):
    meta = tempfile.mkdtemp(prefix='tlc-')
    e = dict(os.environ)
    e.update(env or {})
    cmd = JAVA + ['-Djava.io.tmpdir=' + meta, '-Xmx' + heap, '-Xss16m', '-cp', TLA_CP, 'tlc2.TLC', '-noGenerateSpecTE', '-workers', str(workers), '-metadir', meta,
                  '-config', cfg or module + '.cfg', *args, module + '.tla']
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError('TLC %s timed out after %d s' % (module, timeout))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    if p.returncode not in ok_codes:
        raise ToolError('TLC %s (%s) exited with %d:\n%s' % (module, cfg, p.returncode, p.stdout[-5000:]))
    r = TlcResult(p.stdout)
    r.code = p.returncode
    return r

def pool(n=8):
    return cf.ThreadPoolExecutor(n)

# ----------------------------------------------------------------------------------- checks
class Check:
    def __init__(self, pid):
        self.pid, self.t0 = pid, time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.cover, self.violations, self.assumptions = [], {}, [], []
        self.known = [l.strip() for l in open(os.path.join(VERIF, 'known-findings.txt'))] if os.path.exists(os.path.join(VERIF, 'known-findings.txt')) else []

    def log(self, *a):
        print('[%6.1f]' % (time.time() - self.t0), *a, file=sys.stderr, flush=True)

    def add_tlc(self, r):
        self.states += r.states
        self.transitions += r.transitions

    def violate(self, what, detail):
        self.violations.append({'what': what, 'detail': detail})

    def gather(self, jobs):
        """jobs: (run, args[, timeout]); returns {run-index: text}; crashes become violations."""
        def one(j):
            run, args = j[0], j[1]
            to = j[2] if len(j) > 2 else 240
            try:
                return run_harness(run, args, to)
            except Crash as c:
                return c
        names = sorted({RUNS[j[0]][0] for j in jobs})
        guests = sorted({j[0][2:].split('@')[0] for j in jobs if j[0].startswith('g:')})
        with pool(7) as ex:
            list(ex.map(lambda n: guest(n[2:]) if n.startswith('g:') else build(n), ['g:' + g for g in guests] + names))
        self.log('built', ' '.join(names))
        # Real threads need CPUs of their own to meet each other: they run after the rest, two programs at a time.
        res = [None] * len(jobs)
        def each(n, idx):
            with pool(n) as ex:
                for i, r in zip(idx, ex.map(lambda i: one(jobs[i]), idx)):
                    res[i] = r
        real = [i for i, j in enumerate(jobs) if j[1][0] in ('stress', 'hammer') and not is_qemu(j[0])]
        each(8, [i for i in range(len(jobs)) if i not in set(real)])
        t = time.time()
        each(2, real)
        if real:
            self.log('real threads: %d runs, %.1f s' % (len(real), time.time() - t))
        out = []
        for j, r in zip(jobs, res):
            if isinstance(r, Crash):
                self.violate('the library crashed or hung: ' + r.what, {'config': r.run, 'command': r.args_, 'tail': r.out})
            else:
                out.append((j, r))
        return out

    def judge_rows(self, rows, module='OpsTrace', size=40000, nsamples=3):
        """rows: {json line: [configs]}; TLC judges each; returns the bad ones."""
        lines = sorted(rows)
        if not lines:
            raise ToolError('nothing was recorded')
        bad = []
        for k in range(0, len(lines), size):
            part = lines[k:k + size]
            fd, path = tempfile.mkstemp(suffix='.ndjson')
            with os.fdopen(fd, 'w') as f:
                f.write('\n'.join(part) + '\n')
            try:
                r = tlc(module, env={'ROWS': path})
            finally:
                os.unlink(path)
            self.add_tlc(r)
            oks = len(set(re.findall(r'<<"OK", (\d+)>>', r.out)))
            need = (len(part) + 499) // 500
            if oks != need:
                raise ToolError('%s judged %d of %d chunks\n%s' % (module, oks, need, r.out[-3000:]))
            for i in re.findall(r'<<"BAD", (\d+)>>', r.out):
                bad.append(part[int(i) - 1])
        self.traces += len(lines)
        for l in lines[::max(1, len(lines) // nsamples)][:nsamples]:
            self.samples.append(json.loads(l))
        for l in bad:
            self.violate('an observed execution is not allowed by the specification', {'configs': rows[l], 'row': json.loads(l)})
        return bad

    def finish(self, level='model_checking'):
        listed = []
        real = []
        for v in self.violations:
            key = hashlib.sha256(json.dumps(v, sort_keys=True).encode()).hexdigest()[:16]
            hit = [k for k in self.known if k.startswith('finding: property=%s ' % self.pid) and self.match(k, v)]
            (listed if hit else real).append((v, hit))
        for k in sorted({h for _, hs in listed for h in hs}):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k.split(' ', 2)[2]))
        ev = {'property': self.pid, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': level,
              'coverage': {'states': self.states, 'transitions': self.transitions, 'traces_validated_against_impl': self.traces,
                           'samples': self.samples[:8] or ['none'], **self.cover},
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 1), 'violations': len(real)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w'), indent=1)
        if real:
            path = os.path.join(VERIF, 'evidence', self.pid + '.replay.json')
            json.dump({'property': self.pid, 'seed': SEED, 'tier': TIER, 'count': len(real), 'violations': [v for v, _ in real[:50]]}, open(path, 'w'), indent=1)
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            for v, _ in real[:3]:
                print('  ' + v['what'] + ': ' + json.dumps(v['detail'])[:600])
            return 1
        print('OK property=%s states=%d transitions=%d traces=%d wall=%.1fs' % (self.pid, self.states, self.transitions, self.traces, ev['wall_s']))
        return 0

    @staticmethod
    def match(known, v):
        """A known finding names a regular expression over the violation's JSON: `match=<regex>`."""
        m = re.search(r'match=(\S+)', known)
        return bool(m and re.search(m.group(1), json.dumps(v, sort_keys=True)))

def rows_of(results, tag=None):
    rows = {}
    for (j, (out, _)) in results:
        for l in out.splitlines():
            if l.startswith('{'):
                rows.setdefault(l, [])
                if len(rows[l]) < 6:
                    rows[l].append(j[0])
    return rows
