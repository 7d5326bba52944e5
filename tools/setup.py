"""Checks that the tools the checks need are here, and parses every specification."""
import glob, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pa
bad = 0
for t in (['java', '-version'], ['cargo', '+1.99.1', '--version'], ['cargo', '+nightly', '--version'], ['qemu-aarch64', '--version'], ['qemu-x86_64', '--version'], ['aarch64-linux-gnu-gcc', '--version'], ['i686-linux-gnu-gcc', '--version'],
          *[['qemu-' + q, '--version'] for q in ('s390x', 'ppc64', 'ppc64le', 'arm', 'mips', 'aarch64_be', 'loongarch64', 'sparc64')]):
    p = subprocess.run(t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=pa.cargo_env(''))
    if p.returncode:
        bad = 1
        print('missing:', t)
mods = sorted(os.path.basename(f) for f in glob.glob(os.path.join(pa.SPEC, '*.tla')))
p = subprocess.run(['java', '-cp', pa.TLA_CP, 'tla2sany.SANY'] + mods, cwd=pa.SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
if p.returncode or 'error' in p.stdout.lower():
    bad = 1
    print(p.stdout[-3000:])
print('specifications:', ' '.join(mods))
sys.exit(bad)
