// AArch64 instructions the emulator at hand does not have (FEAT_LRCPC3, FEAT_LSE128), carried out when they
// trap, and a processor that reports the features it is told to.
use core::ffi::{c_int, c_ulong, c_void};

#[repr(C)]
struct Sigaction { handler: usize, mask: [u64; 16], flags: c_int, restorer: usize }
unsafe extern "C" {
    fn sigaction(n: c_int, new: *const Sigaction, old: *mut Sigaction) -> c_int;
    fn _exit(code: c_int) -> !;
}

unsafe extern "C" fn ill(_n: c_int, _i: *mut c_void, uc: *mut c_void) {
    unsafe {
        let regs = (uc as *mut u8).add(184) as *mut u64; // x0..x30, sp, pc
        let pc = regs.add(32);
        let w = *(*pc as *const u32);
        let (rn, rt, rt2) = ((w >> 5 & 31) as usize, (w & 31) as usize, (w >> 16 & 31) as usize);
        let get = |r: usize| if r == 31 { 0 } else { *regs.add(r) };
        let set = |r: usize, v: u64| if r != 31 { *regs.add(r) = v };
        let m = *regs.add(rn) as *mut u64; // 31 is the stack pointer here
        if w & 0xffa0fc00 == 0xd9001800 {
            if w >> 22 & 1 == 1 { set(rt, m.read_volatile()); set(rt2, m.add(1).read_volatile()); } else { m.write_volatile(get(rt)); m.add(1).write_volatile(get(rt2)); }
        } else if w & 0xff20fc00 == 0x19208000 || w & 0xff20fc00 == 0x19201000 || w & 0xff20fc00 == 0x19203000 {
            let (l, h) = (m.read_volatile(), m.add(1).read_volatile());
            let (a, b) = (get(rt), get(rt2));
            let (x, y) = match w >> 12 & 15 { 8 => (a, b), 1 => (l & !a, h & !b), _ => (l | a, h | b) };
            m.write_volatile(x);
            m.add(1).write_volatile(y);
            set(rt, l);
            set(rt2, h);
        } else {
            _exit(132);
        }
        *pc += 4;
    }
}

pub fn install() {
    // SA_SIGINFO | SA_ONSTACK
    let s = Sigaction { handler: ill as *const () as usize, mask: [0; 16], flags: 0x0800_0004, restorer: 0 };
    if unsafe { sigaction(4, &s, core::ptr::null_mut()) } != 0 { panic!("sigaction"); }
}

// PA_CAPS=lse,lse2,rcpc3,lse128: what AT_HWCAP and AT_HWCAP2 say about these, whatever the processor.
#[cfg(feature = "caps")]
mod caps {
    use super::*;
    unsafe extern "C" {
        fn getenv(n: *const u8) -> *const u8;
        fn __getauxval(t: c_ulong) -> c_ulong;
        fn strstr(a: *const u8, b: *const u8) -> *const u8;
    }
    #[unsafe(no_mangle)]
    pub extern "C" fn getauxval(t: c_ulong) -> c_ulong {
        unsafe {
            let real = __getauxval(t);
            let e = getenv(c"PA_CAPS".as_ptr() as *const u8);
            if e.is_null() { return real; }
            let bit = |n: &core::ffi::CStr, b: u32| (!strstr(e, n.as_ptr() as *const u8).is_null() as c_ulong) << b;
            match t {
                16 => real & !(1 << 8 | 1 << 25) | bit(c",lse,", 8) | bit(c",lse2,", 25),
                26 => real & !(1 << 46 | 1 << 47) | bit(c",rcpc3,", 46) | bit(c",lse128,", 47),
                _ => real,
            }
        }
    }
}
