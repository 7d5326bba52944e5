#!/usr/bin/env python3
"""Development aid: applies each small change below to /repo in turn, runs the named checks, undoes it.
usage: mutate.py [name-regex [checks]]"""
import re, subprocess, sys, os
R = '/repo/'
FB, SC, SW, SN = 'src/imp/fallback/mod.rs', 'src/imp/fallback/seq_lock_common.rs', 'src/imp/fallback/seq_lock_wide.rs', 'src/imp/fallback/seq_lock.rs'
CA, LIB, UT = 'src/imp/core_atomic.rs', 'src/lib.rs', 'src/utils.rs'
M = [
 # name, file, old, new, checks expected to notice
 ('lock-swap-relaxed', SC, 'self.state.swap(LOCKED, Ordering::Acquire)', 'self.state.swap(LOCKED, Ordering::Relaxed)', 'C07 C01 C02'),
 ('no-release-fence', SC, 'crate::fence(Ordering::Release);', '', 'C01'),
 ('unlock-relaxed', SC, 'self.lock.state.store(state, Ordering::Release);', 'self.lock.state.store(state, Ordering::Relaxed);', 'C07 C01 C02'),
 ('abort-relaxed', SC, 'this.lock.state.store(this.state, Ordering::Release);', 'this.lock.state.store(this.state, Ordering::Relaxed);', '')  # needs po|rf cycles: the release fence after locking already publishes,
 ('abort-bumps', SC, 'this.lock.state.store(this.state, Ordering::Release);', 'this.lock.state.store(this.state.wrapping_add(2), Ordering::Release);', 'C13'),
 ('opt-read-relaxed', SN, 'self.state.load(Ordering::Acquire)', 'self.state.load(Ordering::Relaxed)', 'C07 C01'),
 ('no-acquire-fence', SN, 'crate::fence(Ordering::Acquire);', '', 'C01'),
 ('validate-always', SN, 'self.state.load(Ordering::Relaxed) == stamp', 'self.state.load(Ordering::Relaxed) != LOCKED || stamp == 1', 'C01 C13'),
 ('stamp-plus1', SN, 'wrapping_add(2)', 'wrapping_add(1)', 'C11 C13'),
 ('stamp-plus0', SN, 'self.state.wrapping_add(2)', 'self.state.wrapping_add(0)', 'C13 C01'),
 ('stamp-mask32', SN, 'self.state.wrapping_add(2)', 'self.state.wrapping_add(2) & 0xffff_ffff', 'C13'),
 ('opt-read-locked', SN, 'if state == LOCKED { None } else { Some(state) }', 'Some(state)', 'C01 C13'),
 ('w-no-acq-fence', SW, 'crate::fence(Ordering::Acquire);', '', 'C01'),
 ('w-lo-relaxed', SW, 'let state_lo = self.state.load(Ordering::Acquire);\n\n        // If (2) is the case and', 'let state_lo = self.state.load(Ordering::Relaxed);\n\n        // If (2) is the case and', 'C13'),
 ('w-hi-order', SW, 'let state_hi = self.state_hi.load(Ordering::Acquire);\n        let state_lo = self.state.load(Ordering::Acquire);', 'let state_lo = self.state.load(Ordering::Acquire);\n        let state_hi = self.state_hi.load(Ordering::Acquire);', 'C13'),
 ('w-hi-late', SW, 'self.lock.state_hi.store(state_hi.wrapping_add(1), Ordering::Release);', 'self.lock.state_hi.store(state_hi.wrapping_add(0), Ordering::Release);', 'C13'),
 ('w-hi-relaxed-store', SW, 'self.lock.state_hi.store(state_hi.wrapping_add(1), Ordering::Release);', 'self.lock.state_hi.store(state_hi.wrapping_add(1), Ordering::Relaxed);', ''),
 ('w-hi-cond', SW, 'if state_lo == 0 {', 'if state_lo == 2 {', 'C13'),
 ('w-validate-lo', SW, '(state_hi, state_lo) == stamp', '(stamp.0, state_lo) == stamp || state_hi == stamp.0.wrapping_sub(9)', 'C13'),
 ('w-lo-acq-first', SW, 'let state_lo = self.state.load(Ordering::Acquire);\n        if', 'let state_lo = self.state.load(Ordering::Relaxed);\n        if', 'C01 C07'),
 ('no-sc-fence-before', FB, 'if unlikely(emit_sc_fence) {\n            crate::fence(Ordering::SeqCst);', 'if unlikely(emit_sc_fence) {', 'C08'),
 ('no-sc-fence-after', FB, 'fn drop(&mut self) {\n        crate::fence(Ordering::SeqCst);', 'fn drop(&mut self) {', 'C08'),
 ('no-sc-fences', FB, 'if unlikely(emit_sc_fence) {', 'if unlikely(emit_sc_fence && false) {', 'C08'),
 ('store-no-sc', FB, 'let _sc_fence = ScFenceGuard::new(order == Ordering::SeqCst);\n                let guard = lock(self.v.get().addr()).write();\n                self.write(val, &guard)', 'let guard = lock(self.v.get().addr()).write();\n                self.write(val, &guard)', 'C08'),
 ('read-fallthrough', FB, 'if lock.validate_read(stamp) {\n                        return val;\n                    }', 'if lock.validate_read(stamp) || val == val {\n                        return val;\n                    }', 'C01'),
 ('swap-guard-early', FB, 'let prev = self.read(&guard);\n                self.write(val, &guard);\n                prev', 'let prev = self.read(&guard);\n                drop(guard);\n                let guard = lock(self.v.get().addr()).write();\n                self.write(val, &guard);\n                prev', 'C02 C03'),
 ('lock-len', FB, '&LOCKS[addr % LEN]', '&LOCKS[(addr / 8) % LEN]', ''),
 ('lock-by-op', FB, 'let guard = lock(self.v.get().addr()).write();\n                self.write(val, &guard)', 'let guard = lock(self.v.get().addr() + 16).write();\n                self.write(val, &guard)', 'C01 C02'),
]
X6, X8, A6, DC, DX = 'src/imp/atomic128/x86_64.rs', 'src/imp/x86.rs', 'src/imp/atomic128/aarch64.rs', 'src/imp/detect/common.rs', 'src/imp/detect/x86_64.rs'
M += [
 ('x-not-nolock', X8, 'concat!("lock not "', 'concat!("not "', 'C02'),
 ('x-neg-nolock', X8, 'concat!("lock neg "', 'concat!("neg "', 'C02'),
 ('x-fence-weak', X8, 'concat!("xchg qword ptr [{p", ptr_modifier!(), "}], {tmp}"),\n                p = in(reg)', 'concat!("mov {tmp}, qword ptr [{p", ptr_modifier!(), "}]"),\n                p = in(reg)', 'C08'),
 ('x-avx-store-nofence', X6, 'concat!("xchg qword ptr [{p", ptr_modifier!(), "}], {tmp}"),\n                    dst', 'concat!("mov {tmp}, qword ptr [{p", ptr_modifier!(), "}]"),\n                    dst', 'C08'),
 ('x-swap-nolock', X6, '"2:",\n                        concat!("lock cmpxchg16b', '"2:",\n                        concat!("cmpxchg16b', 'C02'),
 ('x-rmw3-outside', X6, '"2:",\n                                $($op)*\n                                concat!("lock cmpxchg16b xmmword ptr [", $dst, "]"),\n                                "jne 2b",\n                            concat!("mov rbx, ", $save), // restore rbx\n                            out($save) _,\n                            out("rcx") _,\n                            out("rax") prev_lo,\n                            out("rdx") prev_hi,\n                            in($dst) dst,\n                            in("r8")', '$($op)*\n                            "2:",\n                                concat!("lock cmpxchg16b xmmword ptr [", $dst, "]"),\n                                "jne 2b",\n                            concat!("mov rbx, ", $save), // restore rbx\n                            out($save) _,\n                            out("rcx") _,\n                            out("rax") prev_lo,\n                            out("rdx") prev_hi,\n                            in($dst) dst,\n                            in("r8")', 'C02'),
 ('x-load-torn', X6, 'concat!("vmovdqa {out}, xmmword ptr [{src", ptr_modifier!(), "}]"),', 'concat!("vmovq {out}, qword ptr [{src", ptr_modifier!(), "}]\\nvpinsrq {out}, {out}, qword ptr [{src", ptr_modifier!(), "} + 8], 1"),', 'C01'),
 ('x-rmw2-outside', X6, '$($op)*\n                                concat!("lock cmpxchg16b xmmword ptr [", $dst, "]"),\n                                "jne 2b",\n                            concat!("mov rbx, ", $save), // restore rbx\n                            out($save) _,\n                            out("rcx") _,\n                            out("rax") prev_lo,\n                            out("rdx") prev_hi,\n                            in($dst) dst,\n                            // Do', '$($op)*\n                                concat!("cmpxchg16b xmmword ptr [", $dst, "]"),\n                                "jne 2b",\n                            concat!("mov rbx, ", $save), // restore rbx\n                            out($save) _,\n                            out("rcx") _,\n                            out("rax") prev_lo,\n                            out("rdx") prev_hi,\n                            in($dst) dst,\n                            // Do', 'C02'),
]
def main():
    pat = sys.argv[1] if len(sys.argv) > 1 else '.'
    over = sys.argv[2].split() if len(sys.argv) > 2 else None
    for name, f, old, new, exp in M:
        if not re.search(pat, name):
            continue
        src = open(R + f).read()
        if src.count(old) < 1:
            print('%-22s NO SUCH TEXT' % name); continue
        try:
            open(R + f, 'w').write(src.replace(old, new, 1))
            for chk in over or exp.split() or ['C01', 'C07', 'C13']:
                p = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'check.py'), chk], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
                v = [l for l in p.stdout.splitlines() if l.startswith(('VIOLATION', '  '))]
                print('%-22s %s rc=%d %s' % (name, chk, p.returncode, (v[1][:150] if len(v) > 1 else p.stderr[-300:].replace('\n', ' | ') if p.returncode > 1 else '')), flush=True)
        finally:
            open(R + f, 'w').write(src)
main()
