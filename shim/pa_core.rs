// Stand-in for `core` used by the simulation builds: every atomic access, fence and spin hint made
// through `core::sync::atomic` / `core::hint` is handed to the simulator (harness/src/sim.rs), the
// rest of `core` is re-exported.  The library under test is compiled unmodified against it
// (`--extern core=<this crate>`).
#![no_std]
#![allow(deprecated, clippy::all)]
pub use ::core::*;

/// A read-modify-write step: given the current bits, the bits to install (or None to fail).
pub type Step<'a> = &'a mut dyn FnMut(u64) -> Option<u64>;

unsafe extern "Rust" {
    fn pa_sim_load(addr: usize, size: usize, o: ::core::sync::atomic::Ordering) -> u64;
    fn pa_sim_store(addr: usize, size: usize, v: u64, o: ::core::sync::atomic::Ordering);
    fn pa_sim_rmw(addr: usize, size: usize, f: Step<'_>, s: ::core::sync::atomic::Ordering, fail: ::core::sync::atomic::Ordering, weak: bool) -> Result<u64, u64>;
    fn pa_sim_fence(o: ::core::sync::atomic::Ordering);
    fn pa_sim_spin();
}

pub mod hint {
    pub use ::core::hint::*;
    pub fn spin_loop() { unsafe { super::pa_sim_spin() } }
}

pub mod sync {
    pub use ::core::sync::*;
    pub mod atomic {
        pub use ::core::sync::atomic::{Ordering, compiler_fence};
        use crate::{pa_sim_fence, pa_sim_load, pa_sim_rmw, pa_sim_spin, pa_sim_store};

        #[track_caller]
        pub fn fence(o: Ordering) {
            if let Ordering::Relaxed = o { panic!("there is no such thing as a relaxed fence") }
            unsafe { pa_sim_fence(o) }
        }
        pub fn spin_loop_hint() { unsafe { pa_sim_spin() } }

        #[track_caller]
        fn chk_load(o: Ordering) {
            match o {
                Ordering::Release => panic!("there is no such thing as a release load"),
                Ordering::AcqRel => panic!("there is no such thing as an acquire-release load"),
                _ => {}
            }
        }
        #[track_caller]
        fn chk_store(o: Ordering) {
            match o {
                Ordering::Acquire => panic!("there is no such thing as an acquire store"),
                Ordering::AcqRel => panic!("there is no such thing as an acquire-release store"),
                _ => {}
            }
        }
        #[track_caller]
        fn chk_fail(o: Ordering) {
            match o {
                Ordering::Release => panic!("there is no such thing as a release failure ordering"),
                Ordering::AcqRel => panic!("there is no such thing as an acquire-release failure ordering"),
                _ => {}
            }
        }
        fn fail_of(o: Ordering) -> Ordering {
            match o { Ordering::Release => Ordering::Relaxed, Ordering::AcqRel => Ordering::Acquire, o => o }
        }

        macro_rules! common {
            ([$($g:tt)*] $name:ident $(<$p:ident>)?, $t:ty, $to:expr, $from:expr) => {
                unsafe impl $(<$p>)? Sync for $name $(<$p>)? {}
                unsafe impl $(<$p>)? Send for $name $(<$p>)? {}
                impl $(<$p>)? $name $(<$p>)? {
                    const SIZE: usize = ::core::mem::size_of::<$t>();
                    #[inline] pub const fn new(v: $t) -> Self { Self { v: ::core::cell::UnsafeCell::new(v) } }
                    #[inline] pub const unsafe fn from_ptr<'a>(p: *mut $t) -> &'a Self { unsafe { &*(p as *const Self) } }
                    #[inline] pub const fn as_ptr(&self) -> *mut $t { self.v.get() }
                    #[inline] pub fn get_mut(&mut self) -> &mut $t { self.v.get_mut() }
                    #[inline] pub const fn into_inner(self) -> $t where $t: Copy { unsafe { *(&self as *const Self as *const $t) } }
                    #[inline] fn addr(&self) -> usize { self.v.get() as usize }
                    #[inline] fn step(&self, s: Ordering, mut f: impl FnMut($t) -> $t) -> $t {
                        let mut g = |v: u64| Some($to(f($from(v))));
                        match unsafe { pa_sim_rmw(self.addr(), Self::SIZE, &mut g, s, fail_of(s), false) } { Ok(v) | Err(v) => $from(v) }
                    }
                    #[inline] #[track_caller] pub fn load(&self, o: Ordering) -> $t { chk_load(o); $from(unsafe { pa_sim_load(self.addr(), Self::SIZE, o) }) }
                    #[inline] #[track_caller] pub fn store(&self, v: $t, o: Ordering) { chk_store(o); unsafe { pa_sim_store(self.addr(), Self::SIZE, $to(v), o) } }
                    #[inline] pub fn swap(&self, v: $t, o: Ordering) -> $t { self.step(o, |_| v) }
                    #[inline] fn cas(&self, cur: $t, new: $t, s: Ordering, f: Ordering, weak: bool) -> Result<$t, $t> {
                        let mut g = |v: u64| if v == $to(cur) { Some($to(new)) } else { None };
                        match unsafe { pa_sim_rmw(self.addr(), Self::SIZE, &mut g, s, f, weak) } { Ok(v) => Ok($from(v)), Err(v) => Err($from(v)) }
                    }
                    #[inline] #[track_caller] pub fn compare_exchange(&self, cur: $t, new: $t, s: Ordering, f: Ordering) -> Result<$t, $t> { chk_fail(f); self.cas(cur, new, s, f, false) }
                    #[inline] #[track_caller] pub fn compare_exchange_weak(&self, cur: $t, new: $t, s: Ordering, f: Ordering) -> Result<$t, $t> { chk_fail(f); self.cas(cur, new, s, f, true) }
                    #[track_caller]
                    pub fn compare_and_swap(&self, cur: $t, new: $t, o: Ordering) -> $t {
                        match self.cas(cur, new, o, fail_of(o), false) { Ok(v) | Err(v) => v }
                    }
                    #[inline] #[track_caller]
                    pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, mut g: F) -> Result<$t, $t> {
                        let mut prev = self.load(f);
                        while let Some(next) = g(prev) {
                            match self.compare_exchange_weak(prev, next, s, f) { x @ Ok(_) => return x, Err(p) => prev = p }
                        }
                        Err(prev)
                    }
                }
                impl $(<$p>)? From<$t> for $name $(<$p>)? { fn from(v: $t) -> Self { Self::new(v) } }
                impl $(<$p>)? ::core::fmt::Debug for $name $(<$p>)? {
                    fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { ::core::fmt::Debug::fmt(&self.load(Ordering::Relaxed), f) }
                }
            };
        }
        macro_rules! int {
            ($($name:ident $t:ident $u:ident $align:literal,)*) => { $(
                #[repr(C, align($align))]
                pub struct $name { v: ::core::cell::UnsafeCell<$t> }
                common!([] $name, $t, |v: $t| v as $u as u64, |v: u64| v as $t);
                impl $name {
                    #[inline] pub fn fetch_add(&self, v: $t, o: Ordering) -> $t { self.step(o, |x| x.wrapping_add(v)) }
                    #[inline] pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t { self.step(o, |x| x.wrapping_sub(v)) }
                    #[inline] pub fn fetch_and(&self, v: $t, o: Ordering) -> $t { self.step(o, |x| x & v) }
                    #[inline] pub fn fetch_nand(&self, v: $t, o: Ordering) -> $t { self.step(o, |x| !(x & v)) }
                    #[inline] pub fn fetch_or(&self, v: $t, o: Ordering) -> $t { self.step(o, |x| x | v) }
                    #[inline] pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t { self.step(o, |x| x ^ v) }
                    #[inline] pub fn fetch_max(&self, v: $t, o: Ordering) -> $t { self.step(o, |x| if x > v { x } else { v }) }
                    #[inline] pub fn fetch_min(&self, v: $t, o: Ordering) -> $t { self.step(o, |x| if x < v { x } else { v }) }
                }
                impl Default for $name { fn default() -> Self { Self::new(0) } }
            )* };
        }
        int! {
            AtomicU8 u8 u8 1, AtomicI8 i8 u8 1, AtomicU16 u16 u16 2, AtomicI16 i16 u16 2,
            AtomicU32 u32 u32 4, AtomicI32 i32 u32 4, AtomicU64 u64 u64 8, AtomicI64 i64 u64 8,
        }
        #[cfg(target_pointer_width = "64")]
        int! { AtomicUsize usize u64 8, AtomicIsize isize u64 8, }
        #[cfg(target_pointer_width = "32")]
        int! { AtomicUsize usize u32 4, AtomicIsize isize u32 4, }

        #[cfg_attr(target_pointer_width = "64", repr(C, align(8)))]
        #[cfg_attr(target_pointer_width = "32", repr(C, align(4)))]
        pub struct AtomicPtr<T> { v: ::core::cell::UnsafeCell<*mut T> }
        common!([T] AtomicPtr<T>, *mut T, |v: *mut T| v as usize as u64, |v: u64| v as usize as *mut T);
        impl<T> Default for AtomicPtr<T> { fn default() -> Self { Self::new(::core::ptr::null_mut()) } }
        impl<T> AtomicPtr<T> {
            #[inline] pub fn fetch_ptr_add(&self, v: usize, o: Ordering) -> *mut T { self.step(o, |x| x.wrapping_add(v)) }
            #[inline] pub fn fetch_ptr_sub(&self, v: usize, o: Ordering) -> *mut T { self.step(o, |x| x.wrapping_sub(v)) }
            #[inline] pub fn fetch_byte_add(&self, v: usize, o: Ordering) -> *mut T { self.step(o, |x| (x as usize).wrapping_add(v) as *mut T) }
            #[inline] pub fn fetch_byte_sub(&self, v: usize, o: Ordering) -> *mut T { self.step(o, |x| (x as usize).wrapping_sub(v) as *mut T) }
            #[inline] pub fn fetch_or(&self, v: usize, o: Ordering) -> *mut T { self.step(o, |x| (x as usize | v) as *mut T) }
            #[inline] pub fn fetch_and(&self, v: usize, o: Ordering) -> *mut T { self.step(o, |x| (x as usize & v) as *mut T) }
            #[inline] pub fn fetch_xor(&self, v: usize, o: Ordering) -> *mut T { self.step(o, |x| (x as usize ^ v) as *mut T) }
        }

        #[repr(C, align(1))]
        pub struct AtomicBool { v: ::core::cell::UnsafeCell<bool> }
        common!([] AtomicBool, bool, |v: bool| v as u64, |v: u64| v & 1 == 1);
        impl Default for AtomicBool { fn default() -> Self { Self::new(false) } }
        impl AtomicBool {
            #[inline] pub fn fetch_and(&self, v: bool, o: Ordering) -> bool { self.step(o, |x| x & v) }
            #[inline] pub fn fetch_nand(&self, v: bool, o: Ordering) -> bool { self.step(o, |x| !(x & v)) }
            #[inline] pub fn fetch_or(&self, v: bool, o: Ordering) -> bool { self.step(o, |x| x | v) }
            #[inline] pub fn fetch_xor(&self, v: bool, o: Ordering) -> bool { self.step(o, |x| x ^ v) }
            #[inline] pub fn fetch_not(&self, o: Ordering) -> bool { self.step(o, |x| !x) }
        }
    }
}
