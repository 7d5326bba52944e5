"""C20: what the availability macros say and what the library exports, in many configurations."""
import glob, json, os, re, subprocess, tempfile
import pa
from pa import VERIF, TARGET, cargo_env

WIDTHS = ['8', '16', '32', '64', '128', 'ptr', 'cas']
TYPES = {'8': ['AtomicU8', 'AtomicI8', 'AtomicBool'], '16': ['AtomicU16', 'AtomicI16'], '32': ['AtomicU32', 'AtomicI32'],
         '64': ['AtomicU64', 'AtomicI64'], '128': ['AtomicU128', 'AtomicI128'], 'ptr': ['AtomicUsize', 'AtomicIsize', 'AtomicPtr']}
CAS_METHODS = {'AtomicUsize': ('0, 0', '&portable_atomic::AtomicUsize'), 'AtomicIsize': ('0, 0', '&portable_atomic::AtomicIsize'),
               'AtomicPtr': ('core::ptr::null_mut(), core::ptr::null_mut()', '&portable_atomic::AtomicPtr<u8>'),
               'AtomicU8': ('0, 0', '&portable_atomic::AtomicU8'),
               'AtomicU16': ('0, 0', '&portable_atomic::AtomicU16')}

# (target, build-std, features, flags)
def configs(thorough):
    c = []
    for t in ['x86_64-unknown-linux-gnu', 'i686-unknown-linux-gnu', 'aarch64-unknown-linux-gnu']:
        for f in ['', 'fallback']:
            c.append((t, False, f, ''))
    c += [('x86_64-unknown-linux-gnu', False, '', '-C target-feature=+cmpxchg16b'),
          ('x86_64-unknown-linux-gnu', False, '', '--cfg portable_atomic_no_outline_atomics'),
          ('x86_64-unknown-linux-gnu', False, 'fallback', '--cfg portable_atomic_no_outline_atomics'),
          ('x86_64-unknown-linux-gnu', False, 'fallback,cs', pa.CS_FLAGS),
          ('x86_64-unknown-linux-gnu', False, 'cs', pa.CS_FLAGS),
          ('x86_64-unknown-linux-gnu', False, 'fallback,cs,float', ''),
          ('aarch64-unknown-linux-gnu', False, '', '--cfg portable_atomic_no_outline_atomics'),
          ('x86_64-unknown-linux-musl', False, 'fallback', ''),
          ('aarch64-unknown-linux-musl', False, 'fallback', ''),
          ('x86_64-pc-windows-gnu', False, 'fallback', ''),
          ('x86_64-pc-windows-gnu', False, '', ''),
          ('aarch64-apple-darwin', False, '', ''),
          ('wasm32-unknown-unknown', False, 'fallback', ''),
          ('wasm32-unknown-unknown', False, '', '')]
    std = ['thumbv6m-none-eabi', 'riscv32imac-unknown-none-elf', 'riscv32i-unknown-none-elf', 'riscv64gc-unknown-none-elf', 'msp430-none-elf', 'thumbv7m-none-eabi', 's390x-unknown-linux-gnu']
    if thorough:
        std += ['armv5te-unknown-linux-gnueabi', 'armv4t-none-eabi', 'powerpc64le-unknown-linux-gnu', 'riscv32imafc-unknown-none-elf', 'loongarch64-unknown-none', 'mipsel-unknown-none', 'thumbv8m.base-none-eabi', 'sparc64-unknown-linux-gnu']
    for t in std:
        feats = ['fallback', '']
        if t in ('thumbv6m-none-eabi', 'riscv32i-unknown-none-elf', 'armv4t-none-eabi'):
            feats += ['fallback,single', 'fallback,cs', 'single', 'cs']
        for f in feats:
            c.append((t, True, f, ''))
    c.append(('riscv32imac-unknown-none-elf', True, '', '-C target-feature=+zacas'))
    c.append(('riscv64gc-unknown-none-elf', True, '', '-C target-feature=+zacas'))
    c.append(('riscv32i-unknown-none-elf', True, 'fallback', '-C target-feature=+zaamo'))
    return c

def rustc(tc, args, src, flags):
    d = tempfile.mkdtemp(prefix='probe-')
    f = os.path.join(d, 'probe.rs')
    open(f, 'w').write(src)
    p = subprocess.run(['rustc', '+' + tc, '--edition', '2021', '--crate-type', 'lib', '--emit=metadata', '-A', 'warnings', '-o', os.path.join(d, 'probe.rmeta')] + flags.split() + args + [f],
                       env=cargo_env(''), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    for x in os.listdir(d):
        os.unlink(os.path.join(d, x))
    os.rmdir(d)
    return p.returncode, p.stdout

def key(cfg):
    t, _, f, fl = cfg
    return re.sub(r'[^A-Za-z0-9]+', '_', '%s_%s_%s' % (t, f, fl.replace('--cfg portable_atomic_', '').replace('-C target-feature=', '')))

def probe(cfg):
    """Returns ('rows', [...]) or ('nobuild', text)."""
    target, bstd, feats, flags = cfg
    tc = 'nightly' if bstd else '1.99.1'
    # one target directory per (target, flags) so that core is built once
    tdir = os.path.join(TARGET, 'probe-' + key((target, 0, '', flags)))
    cmd = ['cargo', '+' + tc, 'check', '--offline', '--release', '--target', target, '--target-dir', tdir, '--message-format=json-render-diagnostics']
    if bstd:
        cmd.append('-Zbuild-std=core')
    if feats:
        cmd += ['--features', feats]
    p = subprocess.run(cmd, cwd=os.path.join(VERIF, 'probe'), env=cargo_env(flags), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        return 'nobuild', p.stderr[-3000:]
    ext, dirs = {}, set()
    for l in p.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get('reason') == 'compiler-artifact':
            for fn in m['filenames']:
                if fn.endswith('.rmeta'):
                    ext[m['target']['name'].replace('-', '_')] = fn
                    dirs.add(os.path.dirname(fn))
                elif fn.endswith('.rlib'):
                    ext.setdefault(m['target']['name'].replace('-', '_'), fn)
                    dirs.add(os.path.dirname(fn))
    args = ['--target', target]
    for d in sorted(dirs):
        args += ['-L', 'dependency=' + d]
    if bstd:
        args += ['-Zunstable-options', '--extern', 'noprelude:core=' + ext['core'], '--extern', 'noprelude:compiler_builtins=' + ext['compiler_builtins']]
    args += ['--extern', 'portable_atomic=' + ext['portable_atomic']]
    src = '#![no_std]\n'
    for w in WIDTHS:
        for s in ('has', 'no'):
            src += 'portable_atomic::cfg_%s_atomic_%s! { compile_error!("EXPANDED_%s_%s"); }\n' % (s, w, s, w)
    rc, out = rustc(tc, args, src, flags)
    exp = set(re.findall(r'EXPANDED_(has|no)_(\w+)', out))
    if any('cannot find macro' in l for l in out.splitlines()):
        raise pa.ToolError('availability macro missing: ' + out[-2000:])
    if not exp and rc != 0 and 'error' in out and 'EXPANDED' not in out:
        raise pa.ToolError('probe failed: ' + out[-2000:])
    src = '#![no_std]\n' + ''.join('mod m%s { pub use portable_atomic::%s as T; }\n' % (t, t) for w in TYPES for t in TYPES[w])
    rc, out = rustc(tc, args, src, flags)
    missing = set(re.findall(r'no `(\w+)` in the root', out))
    if rc != 0 and not missing:
        raise pa.ToolError('probe failed: ' + out[-2000:])
    rows = []
    for w in TYPES:
        for t in TYPES[w]:
            rows.append((w, t, 0 if t in missing else 1))
    for t, (a, ty) in CAS_METHODS.items():
        # compare-exchange exists (of a type that does)
        if t in missing:
            continue
        rc, out = rustc(tc, args, '#![no_std]\npub fn f(x: %s) { let _ = x.compare_exchange(%s, core::sync::atomic::Ordering::SeqCst, core::sync::atomic::Ordering::SeqCst); }\n' % (ty, a), flags)
        if rc != 0 and 'E0599' not in out and 'E0277' not in out:
            raise pa.ToolError('probe failed: ' + out[-2000:])
        rows.append(('cas', t, 1 if rc == 0 else 0))
    return 'rows', [json.dumps({'q': 'macro', 'name': w, 'type': t, 'has': int(('has', w) in exp), 'no': int(('no', w) in exp), 'avail': av,
                                'target': target, 'features': feats, 'flags': flags}) for w, t, av in rows]

def run(c):
    cfgs = configs(pa.THOROUGH)
    # same target directory => sequential
    groups = {}
    for x in cfgs:
        groups.setdefault(key((x[0], 0, '', x[3])), []).append(x)
    def one(g):
        return [(x, probe(x)) for x in g]
    rows, built, nobuild = {}, 0, []
    with pa.pool(8) as ex:
        # long groups (their own core) first
        for res in ex.map(one, sorted(groups.values(), key=lambda g: not g[0][1])):
            for x, (k, v) in res:
                if k == 'rows':
                    built += 1
                    for r in v:
                        rows[r] = ['%s [%s] %s' % (x[0], x[2], x[3])]
                else:
                    nobuild.append((x, v))
    for x, out in nobuild:
        if built and 'could not compile `portable-atomic`' in out:
            c.violate('the library no longer builds in a configuration it supports', {'target': x[0], 'features': x[2], 'flags': x[3], 'output': out[-1500:]})
        else:
            raise pa.ToolError('probe build failed: %s\n%s' % (x, out))
    c.cover['configurations'] = [('%s [%s] %s' % (x[0], x[2], x[3])).strip() for x in cfgs]
    c.judge_rows(rows)
