// The library on machines without an operating system: `pa_run` performs the one call that PA_CTX
// describes on the atomic at PA_ARENA[off].  An instruction-set emulator (harness/src/bare) calls it,
// or, with the feature `linux`, a loop that reads calls from the standard input.
#![no_std]
#![cfg_attr(any(target_arch = "mips", target_arch = "mips64", target_arch = "sparc64"), feature(asm_experimental_arch))]
#![no_main]
#![allow(static_mut_refs, dead_code, unused_macros, unused_imports)]
use core::ptr::{addr_of, addr_of_mut};
use portable_atomic as pa;
use portable_atomic::Ordering;

#[cfg(feature = "linux")]
mod linux;

#[repr(C, align(16))]
pub struct Ctx {
    ty: u8, op: u8, o: u8, f: u8,
    kind: u8, // of the result; 0: there is no such type or operation here
    off: u8, calls: u8, pad: [u8; 9],
    a: [u8; 16], b: [u8; 16], r: [u8; 16],
}
#[repr(C, align(64))]
pub struct Arena([u8; 192]);
#[no_mangle]
pub static mut PA_CTX: Ctx = Ctx { ty: 0, op: 0, o: 0, f: 0, kind: 0, off: 0, calls: 0, pad: [0; 9], a: [0; 16], b: [0; 16], r: [0; 16] };
#[no_mangle]
pub static mut PA_ARENA: Arena = Arena([0; 192]);

const V: u8 = 1;
const U: u8 = 2;
const B: u8 = 3;
const OK: u8 = 4;
const ERR: u8 = 5;

/// A closure was given the value in PA_CTX.r.
#[cfg(not(feature = "linux"))]
#[no_mangle]
#[inline(never)]
extern "C" fn pa_cb() { unsafe { addr_of_mut!(PA_CTX.calls).write_volatile(addr_of!(PA_CTX.calls).read_volatile().wrapping_add(1)); } }
#[cfg(feature = "linux")]
use linux::pa_cb;

#[cfg(not(feature = "linux"))]
#[no_mangle]
#[inline(never)]
extern "C" fn pa_panic() -> ! { loop { unsafe { addr_of_mut!(PA_CTX.kind).write_volatile(99); } } }
#[cfg(feature = "linux")]
use linux::pa_panic;
/// What the toolchain's run-time library would provide: one processor, so there is nothing to order.
#[cfg(all(target_arch = "arm", target_os = "none"))]
#[no_mangle]
extern "C" fn __sync_synchronize() {}

#[cfg(target_arch = "msp430")]
mod runtime {
    use core::hint::black_box;
    #[no_mangle]
    extern "C" fn __mspabi_slll(mut x: u32, mut n: u16) -> u32 { while n != 0 { x = black_box(x << 1); n -= 1; } x }
    #[no_mangle]
    extern "C" fn __mspabi_srll(mut x: u32, mut n: u16) -> u32 { while n != 0 { x = black_box(x >> 1); n -= 1; } x }
    #[no_mangle]
    extern "C" fn __mspabi_mpyi(mut x: u16, mut y: u16) -> u16 { let mut r = 0; while y != 0 { if y & 1 != 0 { r = black_box(r + x); } x = black_box(x << 1); y >>= 1; } r }
}

#[panic_handler]
fn panicked(_: &core::panic::PanicInfo<'_>) -> ! { pa_panic() }

fn ord(x: u8) -> Ordering { match x { 0 => Ordering::Relaxed, 1 => Ordering::Acquire, 2 => Ordering::Release, 3 => Ordering::AcqRel, _ => Ordering::SeqCst } }
#[inline(always)]
unsafe fn geta<T: Copy>() -> T { unsafe { addr_of!(PA_CTX.a).cast::<T>().read_volatile() } }
#[inline(always)]
unsafe fn getb<T: Copy>() -> T { unsafe { addr_of!(PA_CTX.b).cast::<T>().read_volatile() } }
#[inline(always)]
unsafe fn put<T: Copy>(kind: u8, v: T) { unsafe { addr_of_mut!(PA_CTX.r).cast::<T>().write_volatile(v); addr_of_mut!(PA_CTX.kind).write_volatile(kind); } }
#[inline(always)]
unsafe fn res<T: Copy>(r: Result<T, T>) { unsafe { match r { Ok(v) => put(OK, v), Err(v) => put(ERR, v) } } }
#[inline(always)]
unsafe fn unit() { unsafe { addr_of_mut!(PA_CTX.kind).write_volatile(U); } }
#[inline(always)]
unsafe fn called<T: Copy>(v: T) { unsafe { addr_of_mut!(PA_CTX.r).cast::<T>().write_volatile(v); } pa_cb(); }

macro_rules! common {
    ($A:ty, $t:ty, $x:ident, $op:ident, $o:ident, $f:ident, $z:expr) => {
        match $op {
            0 => put(V, $x.load($o)),
            1 => { $x.store(geta::<$t>(), $o); unit() }
            2 => put(V, $x.swap(geta::<$t>(), $o)),
            3 => res($x.compare_exchange(geta::<$t>(), getb::<$t>(), $o, $f)),
            4 => res($x.compare_exchange_weak(geta::<$t>(), getb::<$t>(), $o, $f)),
            // reports and views
            200 => put(V, [<$A>::is_lock_free() as u8, <$A>::is_always_lock_free() as u8, core::mem::size_of::<$A>() as u8, core::mem::align_of::<$A>() as u8, core::mem::size_of::<$t>() as u8]),
            201 => put(V, <$A>::new(geta::<$t>()).load(Ordering::Relaxed)),
            202 => put(V, <$A>::new(geta::<$t>()).into_inner()),
            203 => put(V, *(*($x as *const $A as *mut $A)).get_mut()),
            204 => { *(*($x as *const $A as *mut $A)).get_mut() = geta::<$t>(); unit() }
            205 => put(V, $x.as_ptr().read()),
            206 => { $x.as_ptr().write(geta::<$t>()); unit() }
            207 => { <$A>::from_ptr($x as *const $A as *mut $t).store(geta::<$t>(), Ordering::Relaxed); unit() }
            208 => put(V, <$A>::from(geta::<$t>()).load(Ordering::Relaxed)),
            209 => put(V, <$A>::default().load(Ordering::Relaxed)),
            _ => {}
        }
    };
}
macro_rules! int {
    ($name:ident, $A:ident, $t:ident) => {
        #[inline(never)]
        unsafe fn $name(p: *mut u8, op: u8, o: Ordering, f: Ordering) { unsafe {
            let x = &*(p as *const pa::$A);
            match op {
                5 => put(V, x.fetch_add(geta::<$t>(), o)),
                6 => put(V, x.fetch_sub(geta::<$t>(), o)),
                7 => put(V, x.fetch_and(geta::<$t>(), o)),
                8 => put(V, x.fetch_nand(geta::<$t>(), o)),
                9 => put(V, x.fetch_or(geta::<$t>(), o)),
                10 => put(V, x.fetch_xor(geta::<$t>(), o)),
                11 => put(V, x.fetch_max(geta::<$t>(), o)),
                12 => put(V, x.fetch_min(geta::<$t>(), o)),
                13 => put(V, x.fetch_not(o)),
                14 => put(V, x.fetch_neg(o)),
                15 => { x.add(geta::<$t>(), o); unit() }
                16 => { x.sub(geta::<$t>(), o); unit() }
                17 => { x.and(geta::<$t>(), o); unit() }
                18 => { x.or(geta::<$t>(), o); unit() }
                19 => { x.xor(geta::<$t>(), o); unit() }
                20 => { x.not(o); unit() }
                21 => { x.neg(o); unit() }
                22 => put(B, x.bit_set(geta::<u32>(), o) as u8),
                23 => put(B, x.bit_clear(geta::<u32>(), o) as u8),
                24 => put(B, x.bit_toggle(geta::<u32>(), o) as u8),
                25 => { let (a, b) = (geta::<$t>(), getb::<$t>()); res(x.fetch_update(o, f, |v| { called(v); if v == b { None } else { Some(core::hint::black_box(v.wrapping_add(a))) } })) }
                _ => common!(pa::$A, $t, x, op, o, f, 1),
            }
        } }
    };
}
#[cfg(feature = "small")]
mod small {
    use super::*;
    int!(u8_, AtomicU8, u8);
    int!(i8_, AtomicI8, i8);
    int!(u16_, AtomicU16, u16);
    int!(i16_, AtomicI16, i16);
    #[inline(never)]
    pub(super) unsafe fn bool_(p: *mut u8, op: u8, o: Ordering, f: Ordering) { unsafe {
        let x = &*(p as *const pa::AtomicBool);
        // the bytes of a boolean, whatever they are
        let to = |v: bool| addr_of!(v).cast::<u8>().read_volatile();
        let (a, b) = (geta::<u8>() & 1 == 1, getb::<u8>() & 1 == 1);
        let r = |r: Result<bool, bool>| match r { Ok(v) => put(OK, to(v)), Err(v) => put(ERR, to(v)) };
        match op {
            0 => put(V, to(x.load(o))),
            1 => { x.store(a, o); unit() }
            2 => put(V, to(x.swap(a, o))),
            3 => r(x.compare_exchange(a, b, o, f)),
            4 => r(x.compare_exchange_weak(a, b, o, f)),
            7 => put(V, to(x.fetch_and(a, o))),
            8 => put(V, to(x.fetch_nand(a, o))),
            9 => put(V, to(x.fetch_or(a, o))),
            10 => put(V, to(x.fetch_xor(a, o))),
            13 => put(V, to(x.fetch_not(o))),
            17 => { x.and(a, o); unit() }
            18 => { x.or(a, o); unit() }
            19 => { x.xor(a, o); unit() }
            20 => { x.not(o); unit() }
            25 => r(x.fetch_update(o, f, |v| { called(to(v)); if v == b { None } else { Some(v ^ a) } })),
            200 => put(V, [pa::AtomicBool::is_lock_free() as u8, pa::AtomicBool::is_always_lock_free() as u8, core::mem::size_of::<pa::AtomicBool>() as u8, core::mem::align_of::<pa::AtomicBool>() as u8, 1]),
            201 => put(V, to(pa::AtomicBool::new(a).load(Ordering::Relaxed))),
            202 => put(V, to(pa::AtomicBool::new(a).into_inner())),
            203 => put(V, to(*(*(p as *mut pa::AtomicBool)).get_mut())),
            204 => { *(*(p as *mut pa::AtomicBool)).get_mut() = a; unit() }
            205 => put(V, to(x.as_ptr().read())),
            206 => { x.as_ptr().write(a); unit() }
            207 => { pa::AtomicBool::from_ptr(p as *mut bool).store(a, Ordering::Relaxed); unit() }
            208 => put(V, to(pa::AtomicBool::from(a).load(Ordering::Relaxed))),
            209 => put(V, to(pa::AtomicBool::default().load(Ordering::Relaxed))),
            _ => {}
        }
    } }
    pub(super) unsafe fn go(ty: u8, p: *mut u8, op: u8, o: Ordering, f: Ordering) { unsafe { match ty { 0 => u8_(p, op, o, f), 1 => i8_(p, op, o, f), 2 => u16_(p, op, o, f), 3 => i16_(p, op, o, f), 12 => bool_(p, op, o, f), _ => {} } } }
}
#[cfg(feature = "mid")]
mod mid {
    use super::*;
    pa::cfg_has_atomic_32! { int!(u32_, AtomicU32, u32); int!(i32_, AtomicI32, i32); }
    int!(usize_, AtomicUsize, usize);
    int!(isize_, AtomicIsize, isize);
    pub(super) unsafe fn go(ty: u8, p: *mut u8, op: u8, o: Ordering, f: Ordering) { unsafe { match ty {
        4 => { pa::cfg_has_atomic_32! { u32_(p, op, o, f) } }
        5 => { pa::cfg_has_atomic_32! { i32_(p, op, o, f) } }
        10 => usize_(p, op, o, f), 11 => isize_(p, op, o, f), _ => {} } } }
}
#[cfg(feature = "w64")]
mod w64 {
    use super::*;
    pa::cfg_has_atomic_64! { int!(u64_, AtomicU64, u64); int!(i64_, AtomicI64, i64); }
    pub(super) unsafe fn go(ty: u8, p: *mut u8, op: u8, o: Ordering, f: Ordering) { pa::cfg_has_atomic_64! { unsafe { match ty { 6 => u64_(p, op, o, f), 7 => i64_(p, op, o, f), _ => {} } } } }
}
#[cfg(feature = "w128")]
mod w128 {
    use super::*;
    pa::cfg_has_atomic_128! { int!(u128_, AtomicU128, u128); int!(i128_, AtomicI128, i128); }
    pub(super) unsafe fn go(ty: u8, p: *mut u8, op: u8, o: Ordering, f: Ordering) { pa::cfg_has_atomic_128! { unsafe { match ty { 8 => u128_(p, op, o, f), 9 => i128_(p, op, o, f), _ => {} } } } }
}
#[cfg(feature = "ptr")]
mod ptr {
    use super::*;
    macro_rules! ptr {
        ($name:ident, $t:ty) => {
            #[inline(never)]
            unsafe fn $name(p: *mut u8, op: u8, o: Ordering, f: Ordering) { unsafe {
                let x = &*(p as *const pa::AtomicPtr<$t>);
                type P = *mut $t;
                match op {
                    7 => put(V, x.fetch_and(geta::<usize>(), o)),
                    9 => put(V, x.fetch_or(geta::<usize>(), o)),
                    10 => put(V, x.fetch_xor(geta::<usize>(), o)),
                    22 => put(B, x.bit_set(geta::<u32>(), o) as u8),
                    23 => put(B, x.bit_clear(geta::<u32>(), o) as u8),
                    24 => put(B, x.bit_toggle(geta::<u32>(), o) as u8),
                    25 => { let (a, b) = (geta::<usize>(), getb::<P>()); res(x.fetch_update(o, f, |v| { called(v); if v == b { None } else { Some((v as usize).wrapping_add(a) as P) } })) }
                    27 => put(V, x.fetch_ptr_add(geta::<usize>(), o)),
                    28 => put(V, x.fetch_ptr_sub(geta::<usize>(), o)),
                    29 => put(V, x.fetch_byte_add(geta::<usize>(), o)),
                    30 => put(V, x.fetch_byte_sub(geta::<usize>(), o)),
                    _ => common!(pa::AtomicPtr<$t>, P, x, op, o, f, 1),
                }
            } }
        };
    }
    ptr!(p0, ());
    ptr!(p1, u8);
    ptr!(p3, [u8; 3]);
    ptr!(p8, u64);
    ptr!(p24, [u8; 24]);
    ptr!(p4096, [u8; 4096]);
    pub(super) unsafe fn go(ty: u8, p: *mut u8, op: u8, o: Ordering, f: Ordering) { unsafe { match ty { 13 => p0(p, op, o, f), 14 => p1(p, op, o, f), 15 => p3(p, op, o, f), 16 => p8(p, op, o, f), 17 => p24(p, op, o, f), 18 => p4096(p, op, o, f), _ => {} } } }
}
#[cfg(feature = "float")]
mod float {
    use super::*;
    macro_rules! float {
        ($name:ident, $A:ident, $t:ident, $u:ident) => {
            #[inline(never)]
            unsafe fn $name(p: *mut u8, op: u8, o: Ordering, f: Ordering) { unsafe {
                let x = &*(p as *const pa::$A);
                match op {
                    5 => put(V, x.fetch_add(geta::<$t>(), o)),
                    6 => put(V, x.fetch_sub(geta::<$t>(), o)),
                    11 => put(V, x.fetch_max(geta::<$t>(), o)),
                    12 => put(V, x.fetch_min(geta::<$t>(), o)),
                    14 => put(V, x.fetch_neg(o)),
                    26 => put(V, x.fetch_abs(o)),
                    25 => { let (a, b) = (geta::<$u>(), getb::<$u>()); res(x.fetch_update(o, f, |v| { called(v); if v.to_bits() == b { None } else { Some($t::from_bits(v.to_bits().wrapping_add(a))) } })) }
                    _ => common!(pa::$A, $t, x, op, o, f, 1),
                }
            } }
        };
    }
    pa::cfg_has_atomic_32! { float!(f32_, AtomicF32, f32, u32); }
    pa::cfg_has_atomic_64! { float!(f64_, AtomicF64, f64, u64); }
    pub(super) unsafe fn go(ty: u8, p: *mut u8, op: u8, o: Ordering, f: Ordering) { unsafe { match ty {
        19 => { pa::cfg_has_atomic_32! { f32_(p, op, o, f) } }
        20 => { pa::cfg_has_atomic_64! { f64_(p, op, o, f) } }
        _ => {} } } }
}

#[no_mangle]
#[inline(never)]
pub extern "C" fn pa_run() {
    unsafe {
        let c = addr_of!(PA_CTX);
        let (ty, op) = (addr_of!((*c).ty).read_volatile(), addr_of!((*c).op).read_volatile());
        let (o, f) = (ord(addr_of!((*c).o).read_volatile()), ord(addr_of!((*c).f).read_volatile()));
        let p = addr_of_mut!(PA_ARENA).cast::<u8>().wrapping_add(addr_of!((*c).off).read_volatile() as usize);
        match (ty, op) {
            (100, 0) => { pa::fence(o); unit() }
            (100, 1) => { pa::compiler_fence(o); unit() }
            _ => {
                #[cfg(feature = "small")]
                small::go(ty, p, op, o, f);
                #[cfg(feature = "mid")]
                mid::go(ty, p, op, o, f);
                #[cfg(feature = "w64")]
                w64::go(ty, p, op, o, f);
                #[cfg(feature = "w128")]
                w128::go(ty, p, op, o, f);
                #[cfg(feature = "ptr")]
                ptr::go(ty, p, op, o, f);
                #[cfg(feature = "float")]
                float::go(ty, p, op, o, f);
            }
        }
    }
}

#[cfg(not(feature = "linux"))]
#[no_mangle]
pub extern "C" fn _start() { pa_run() }
