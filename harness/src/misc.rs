// Orderings (C09), views and layout (C17), lock-freedom reports (C10, C12): one JSON line per observation.
use crate::for_each_type;
use crate::ops::*;
use crate::seq::{arg_json, boundary, kind, limbs, ret_json};
use core::sync::atomic::Ordering;
use portable_atomic as pa;
use std::io::Write;
use std::sync::mpsc;
use std::time::Duration;

/// Runs `f` on an atomic of each type.
fn each(f: &mut dyn FnMut(&'static dyn Cell)) {
    #[cfg(feature = "bare")]
    for c in crate::bare::EmuCell::all() { f(c.leak()); }
    #[cfg(not(feature = "bare"))]
    for_each_type!(T => f(Box::leak(Box::new(T::default()))));
}
pub fn line(s: String) { let mut o = std::io::stdout().lock(); let _ = writeln!(o, "{s}"); let _ = o.flush(); }

// ------------------------------------------------------------------------------------------- C09
/// Runs `f` on its own thread; None if it does not finish.
fn timed<R: Send + 'static>(secs: u64, f: impl FnOnce() -> R + Send + 'static) -> Option<R> {
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || { let r = f(); let _ = tx.send(r); });
    rx.recv_timeout(Duration::from_secs(secs)).ok()
}

fn probe<T: Cell + ?Sized>(x: &T, m: u128, sup: &[Op]) -> bool {
    let sc = Ordering::SeqCst;
    let mut ok = true;
    let one = 1 & m;
    let b = |v: u128| Ret::V(v);
    for &op in sup {
        match op {
            Store => { ok &= x.call(Store, one, 0, sc, sc) == Ret::U; ok &= x.call(Load, 0, 0, sc, sc) == b(one); }
            Swap => { x.call(Store, one, 0, sc, sc); ok &= x.call(Swap, 0, 0, sc, sc) == b(one); ok &= x.call(Load, 0, 0, sc, sc) == b(0); }
            Cas => { x.call(Store, one, 0, sc, sc); ok &= x.call(Cas, one, 0, sc, sc) == Ret::Ok(one); ok &= x.call(Cas, one, 0, sc, sc) == Ret::Err(0); }
            _ => {}
        }
    }
    ok
}

fn ord_type(x: &'static dyn Cell, only: &str) -> bool {
    let info = x.info();
    if only != "all" && !only.split(',').any(|t| t == info.name) { return true; }
    let bnd = boundary(info.bits, info.kind);
    let c = bnd[bnd.len() / 3];
    let m = info.mask();
    let sup: Vec<Op> = ALL_OPS.iter().copied().filter(|&o| x.supports(o)).collect();
    for &op in &sup {
        let two = matches!(op, Cas | CasW | Upd);
        for &o in RMW {
            for &f in if two { RMW } else { &RMW[..1] } {
                // both outcomes of a compare-exchange / update
                for hit in if two { &[true, false][..] } else { &[true][..] } {
                    let (a, b) = match op {
                        Cas | CasW => (if *hit { c } else { !c & m }, !c & m),
                        Upd => (1 & m, if *hit { !c & m } else { c }),
                        _ => (1 & m, 0),
                    };
                    let orc = if info.kind == Kind::Float { float_oracle(info.name, op, c, a) } else { 0 };
                    let sup2 = sup.clone();
                    let res = timed(10, move || {
                        x.call(Store, c, 0, Ordering::Relaxed, Ordering::Relaxed);
                        let mut calls = 0u32;
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| x.call_inj(op, a, b, o, f, &mut |_| calls += 1))).unwrap_or(Ret::Panic);
                        let n = match x.call(Load, 0, 0, Ordering::SeqCst, Ordering::SeqCst) { Ret::V(v) => v, _ => 0 };
                        let after = probe(x, m, &sup2);
                        (r, n, calls, after)
                    });
                    let (hung, (r, n, calls, after)) = match res { None => (true, (Ret::Panic, c, 0, false)), Some(v) => (false, v) };
                    line(format!("{{\"q\":\"ord\",\"t\":\"{}\",\"w\":{},\"K\":\"{}\",\"z\":{},\"op\":\"{}\",\"c\":{},\"a\":{},\"b\":{},\"x\":{},\"o\":\"{}\",\"f\":\"{}\",{},\"n\":{},\"calls\":{},\"after\":{}}}",
                        info.name, info.bits, kind(&info), info.size_of, op.name(), limbs(c, &info), arg_json(op, a, &info),
                        if op.arity() == 2 { limbs(b, &info) } else { "[]".into() }, if info.kind == Kind::Float { limbs(orc, &info) } else { "[]".into() },
                        ord_name(o), if two { ord_name(f) } else { "rlx" }, ret_json(r, &info), limbs(n, &info), calls, after as u8));
                    if hung { return false; }
                }
            }
        }
    }
    true
}

pub fn ord(only: &str) {
    for &o in RMW {
        for (name, f) in [("fence", pa::fence as fn(Ordering)), ("compiler_fence", pa::compiler_fence as fn(Ordering))] {
            #[cfg(feature = "bare")]
            let p = crate::bare::fence(name, o);
            #[cfg(not(feature = "bare"))]
            let p = std::panic::catch_unwind(|| f(o)).is_err();
            line(format!("{{\"q\":\"fence\",\"fn\":\"{name}\",\"o\":\"{}\",\"k\":\"{}\"}}", ord_name(o), if p { "panic" } else { "u" }));
        }
    }
    let mut go = true;
    each(&mut |x| if go { go = ord_type(x, only); });
}

// ------------------------------------------------------------------------------------------- C17
fn vrow(i: &Info, view: &str, c: u128, n: u128) {
    line(format!("{{\"q\":\"view\",\"t\":\"{}\",\"v\":\"{view}\",\"c\":{},\"n\":{}}}", i.name, limbs(c, i), limbs(n, i)));
}
fn srow(i: &Info, view: &str, a: String, b: String) {
    let esc = |s: String| s.replace('\\', "\\\\").replace('"', "\\\"");
    line(format!("{{\"q\":\"str\",\"t\":\"{}\",\"v\":\"{view}\",\"s1\":\"{}\",\"s2\":\"{}\"}}", i.name, esc(a), esc(b)));
}

#[cfg(feature = "serde")]
struct Ser<'a, T>(&'a T);
#[cfg(feature = "serde")]
impl<T: serde::Serialize> std::fmt::Display for Ser<'_, T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { serde::Serialize::serialize(self.0, f) }
}

fn raw<T>(x: &T) -> u128 {
    let mut b = [0u8; 16];
    let s = core::mem::size_of::<T>();
    unsafe { core::ptr::copy_nonoverlapping(x as *const T as *const u8, b.as_mut_ptr(), s.min(16)); }
    u128::from_le_bytes(b)
}

const SC: Ordering = Ordering::SeqCst;
macro_rules! views {
    ($At:ty, $V:ty, $to:expr, $of:expr, $vals:expr, serde=$serde:ident, fmt=$($fmts:literal),*) => {{
        let to = |v: $V| -> u128 { $to(v) };
        let of = |b: u128| -> $V { $of(b) };
        let i = Cell::info(&<$At>::new(of(0)));
        line(format!("{{\"q\":\"layout\",\"t\":\"{}\",\"w\":{},\"size\":{},\"align\":{},\"vsize\":{}}}", i.name, i.bits,
            core::mem::size_of::<$At>(), core::mem::align_of::<$At>(), core::mem::size_of::<$V>()));
        vrow(&i, "default", 0, to(<$At>::default().load(SC)));
        let vals: Vec<u128> = $vals;
        for (k, &c) in vals.iter().enumerate() {
            let d = vals[(k + 7) % vals.len()];
            vrow(&i, "new", c, to(<$At>::new(of(c)).load(SC)));
            vrow(&i, "from", c, to(<$At>::from(of(c)).load(SC)));
            let mut x = <$At>::new(of(d));
            x.store(of(c), SC);
            vrow(&i, "raw", c, raw(&x));
            vrow(&i, "get_mut", c, to(*x.get_mut()));
            vrow(&i, "as_ptr", c, to(unsafe { *x.as_ptr() }));
            unsafe { *x.as_ptr() = of(d); }
            vrow(&i, "as_ptr_write", d, to(x.load(SC)));
            *x.get_mut() = of(c);
            vrow(&i, "get_mut_write", c, to(x.load(SC)));
            let mut s: Vec<String> = Vec::new();
            let mut t: Vec<String> = Vec::new();
            $( s.push(format!($fmts, x)); t.push(format!($fmts, of(c))); )*
            for (k, (s, t)) in s.into_iter().zip(t).enumerate() { srow(&i, &format!("fmt{k}"), s, t); }
            views!(@ser $serde, $At, $V, x, of(c), i, c, to);
            vrow(&i, "into_inner", c, to(x.into_inner()));
            // from_ptr: both directions
            #[repr(align(16))] struct A($V);
            let mut v = A(of(c));
            let p = core::ptr::addr_of_mut!(v.0);
            let y: &$At = unsafe { <$At>::from_ptr(p) };
            vrow(&i, "from_ptr", c, to(y.load(SC)));
            y.store(of(d), SC);
            vrow(&i, "from_ptr_store", d, to(unsafe { p.read() }));
            y.swap(of(c), SC);
            vrow(&i, "from_ptr_swap", c, to(unsafe { p.read() }));
        }
    }};
    (@ser yes, $At:ty, $V:ty, $x:expr, $v:expr, $i:expr, $c:expr, $to:expr) => {
        #[cfg(feature = "serde")]
        {
            srow(&$i, "ser", format!("{}", Ser(&$x)), format!("{}", Ser(&$v)));
            use serde::de::{value::Error, Deserialize, IntoDeserializer};
            let y: Result<$At, Error> = <$At>::deserialize(<$V as IntoDeserializer<Error>>::into_deserializer($v));
            match y { Ok(y) => vrow(&$i, "de", $c, $to(y.load(SC))), Err(_) => srow(&$i, "de", "error".into(), "value".into()) }
        }
    };
    (@ser no, $($t:tt)*) => {};
}
static S128: pa::AtomicU128 = pa::AtomicU128::new(0x0123456789abcdeffedcba9876543210);
static SI64: pa::AtomicI64 = pa::AtomicI64::new(-5);

pub fn views(_all: bool) {
    macro_rules! ints { ($($At:ident $V:ident $U:ident),*) => { $(
        views!(pa::$At, $V, |v: $V| v as $U as u128, |b: u128| b as $V, boundary($V::BITS, Kind::UInt), serde=yes, fmt="{:?}", "{:#?}", "{:x?}", "{:08X?}", "{:+?}", "{:>45?}");
    )* } }
    ints!(AtomicU8 u8 u8, AtomicI8 i8 u8, AtomicU16 u16 u16, AtomicI16 i16 u16, AtomicU32 u32 u32, AtomicI32 i32 u32,
        AtomicU64 u64 u64, AtomicI64 i64 u64, AtomicU128 u128 u128, AtomicI128 i128 u128, AtomicUsize usize usize, AtomicIsize isize usize);
    views!(pa::AtomicBool, bool, |v: bool| v as u128, |b: u128| b & 1 == 1, vec![0, 1, 1, 0, 1, 0, 0, 1], serde=yes, fmt="{:?}", "{:#?}", "{:>9?}");
    macro_rules! ptrs { ($($t:ty),*) => { $(
        views!(pa::AtomicPtr<$t>, *mut $t, |v: *mut $t| v as usize as u128, |b: u128| b as usize as *mut $t, boundary(usize::BITS, Kind::UInt), serde=no, fmt="{:?}", "{:#?}", "{:p}", "{:#p}", "{:>30p}");
    )* } }
    ptrs!((), u8, u64, [u8; 3]);
    views!(pa::AtomicF32, f32, |v: f32| v.to_bits() as u128, |b: u128| f32::from_bits(b as u32), boundary(32, Kind::Float), serde=yes, fmt="{:?}", "{:#?}", "{:.3?}", "{:+?}");
    views!(pa::AtomicF64, f64, |v: f64| v.to_bits() as u128, |b: u128| f64::from_bits(b as u64), boundary(64, Kind::Float), serde=yes, fmt="{:?}", "{:#?}", "{:.3?}", "{:+?}");
    #[cfg(portable_atomic_unstable_f16)]
    views!(pa::AtomicF16, f16, |v: f16| v.to_bits() as u128, |b: u128| f16::from_bits(b as u16), boundary(16, Kind::Float), serde=no, fmt="{:?}");
    #[cfg(portable_atomic_unstable_f128)]
    views!(pa::AtomicF128, f128, |v: f128| v.to_bits(), |b: u128| f128::from_bits(b), boundary(128, Kind::Float), serde=no, fmt="{:?}");
    // the bits of a float atomic as an integer atomic
    for &c in &boundary(32, Kind::Float) {
        let x = pa::AtomicF32::new(f32::from_bits(c as u32));
        let i = Cell::info(&x);
        vrow(&i, "as_bits", c, x.as_bits().load(SC) as u128);
        x.as_bits().store(!c as u32, SC);
        vrow(&i, "as_bits_store", !c & i.mask(), x.load(SC).to_bits() as u128);
    }
    for &c in &boundary(64, Kind::Float) {
        let x = pa::AtomicF64::new(f64::from_bits(c as u64));
        let i = Cell::info(&x);
        vrow(&i, "as_bits", c, x.as_bits().load(SC) as u128);
        x.as_bits().store(!c as u64, SC);
        vrow(&i, "as_bits_store", !c & i.mask(), x.load(SC).to_bits() as u128);
    }
    let i = Cell::info(&S128);
    vrow(&i, "static", 0x0123456789abcdeffedcba9876543210, S128.load(SC));
    let i = Cell::info(&SI64);
    vrow(&i, "static", (-5i64) as u64 as u128, SI64.load(SC) as u64 as u128);
}

// ------------------------------------------------------------------------------------------- C10
extern "C" {
    static __data_start: u8;
    static _end: u8;
}
/// Writable statics of this program, as raw bytes.
fn statics() -> (*const u8, usize) { unsafe { let a = core::ptr::addr_of!(__data_start); let b = core::ptr::addr_of!(_end); (a, b as usize - a as usize) } }
#[inline(never)]
fn snap(buf: &mut [u8]) { let (p, n) = statics(); for k in 0..n { buf[k] = unsafe { p.add(k).read_volatile() }; } }
#[inline(never)]
fn differs(buf: &[u8]) -> bool { let (p, n) = statics(); let mut d = false; for k in 0..n { if unsafe { p.add(k).read_volatile() } != buf[k] { d = true; } } d }

fn lf_type(x: &'static dyn Cell, expect128: &str, expect64: &str) {
    let info = x.info();
    let m = info.mask();
    let mut reports: Vec<bool> = vec![x.lock_free().0];
    let sc = Ordering::SeqCst;
    let mut buf = vec![0u8; statics().1];
    let mut locks: Vec<(Op, bool, u64)> = Vec::new();
    for &op in ALL_OPS {
        if !x.supports(op) || op == Load { continue; }
        for o in [Ordering::Relaxed, sc] {
            let o = if op == Store && o != sc { Ordering::Release } else { o };
            let f = if o == sc { sc } else { Ordering::Relaxed };
            // arguments that change the value
            let (c, a, b) = match op {
                Cas | CasW => (1 & m, 1 & m, 0),
                Upd => (0, 1 & m, m),
                And | NAnd | BitClear => (1 & m, 0, 0),
                NNeg if info.kind != Kind::Float => (1 & m, 0, 0),
                Neg if info.kind != Kind::Float => (1, 0, 0),
                Nand => (0, 1 & m, 0),
                Abs => (m ^ (m >> 1), 0, 0),
                Max if info.kind == Kind::Float => (0, match info.bits { 16 => 0x3c00, 32 => 0x3f800000, 64 => 0x3ff0000000000000, _ => 0x3fff << 112 }, 0),
                Min if info.kind == Kind::Float => (match info.bits { 16 => 0x3c00, 32 => 0x3f800000, 64 => 0x3ff0000000000000, _ => 0x3fff << 112 }, 0, 0),
                Add | Sub if info.kind == Kind::Float => (0, match info.bits { 16 => 0x3c00, 32 => 0x3f800000, 64 => 0x3ff0000000000000, _ => 0x3fff << 112 }, 0),
                Max if info.kind == Kind::SInt => (0, 1, 0),
                Min if info.kind != Kind::SInt => (1, 0, 0),
                Min => (1, 0, 0),
                BitSet | BitToggle => (0, 0, 0),
                _ => (0, 1 & m, 0),
            };
            // pointers to zero-sized pointees do not move
            if matches!(op, PAdd | PSub) && info.size_of == 0 { continue; }
            x.call(Store, c, 0, sc, sc);
            x.call(op, a, b, o, f); // first use settles caches
            x.call(Store, c, 0, sc, sc);
            #[cfg(feature = "cs")]
            let before = crate::cs::acquired();
            #[cfg(not(feature = "cs"))]
            let before = 0u64;
            snap(&mut buf);
            x.call(op, a, b, o, f);
            let d = differs(&buf);
            #[cfg(feature = "cs")]
            let cs = crate::cs::acquired() - before;
            #[cfg(not(feature = "cs"))]
            let cs = before;
            locks.push((op, d, cs));
            reports.push(x.lock_free().0);
        }
    }
    let hs: Vec<_> = (0..4).map(|_| std::thread::spawn(move || (0..50).map(|_| x.lock_free().0).collect::<Vec<_>>())).collect();
    for h in hs { reports.extend(h.join().unwrap()); }
    let (now, always) = x.lock_free();
    reports.push(now);
    let constant = reports.iter().all(|&r| r == now);
    let exp = if cfg!(feature = "cs") { "no" } else if info.bits == 128 { expect128 } else if info.bits == 64 && usize::BITS == 32 { expect64 } else { "yes" };
    for (op, d, cs) in locks {
        line(format!("{{\"q\":\"lf\",\"t\":\"{}\",\"w\":{},\"op\":\"{}\",\"now\":{},\"always\":{},\"const\":{},\"locks\":{},\"cs\":{},\"expect\":\"{}\"}}",
            info.name, info.bits, op.name(), now as u8, always as u8, constant as u8, d as u8, (cs > 0) as u8, exp));
    }
}
pub fn lf(e128: &str, e64: &str) { for_each_type!(T => lf_type(Box::leak(Box::new(T::default())), e128, e64)); }

// ------------------------------------------------------------------------------------------- C06
/// fetch_update whose closure changes the atomic behind its own back: each call k of the closure
/// performs a store (or a read-modify-write) on the same atomic, then answers for what it was given.
pub fn inj(seed: u64, random: usize, types: &str) {
    use std::cell::RefCell;
    let mut rng = crate::rng::Rng::new(seed ^ 0x606);
    each(&mut |x| {
        let info = x.info();
        if types == "all" || types.split(',').any(|t| t == info.name) {
            let bnd = boundary(info.bits, info.kind);
            let m = info.mask();
            let mut cases: Vec<(u128, u128, u128, Vec<u128>, bool, Ordering, Ordering)> = vec![];
            for n in 0..(60 + random) {
                let v = |rng: &mut crate::rng::Rng| if rng.below(3) > 0 { bnd[rng.below(bnd.len())] } else { rng.u128() & m };
                let c = v(&mut rng);
                let a = v(&mut rng);
                let mut b = v(&mut rng);
                let k = n % 4;
                let mut script: Vec<u128> = vec![];
                for j in 0..k {
                    let prev = *script.last().unwrap_or(&c);
                    script.push(match rng.below(6) { 0 => prev, 1 => prev ^ (1u128 << rng.below(info.bits as usize)), 2 => (prev ^ 1) & m, 3 => c, 4 => prev.wrapping_add(1 << (info.bits / 2).min(127)) & m, _ => v(&mut rng) } & m);
                    if j + 1 == k && rng.below(2) == 0 { b = *script.last().unwrap(); }
                }
                if rng.below(5) == 0 { b = c; }
                cases.push((c, a, b, script, rng.below(8) == 0 && cfg!(not(feature = "bare")), RMW[rng.below(5)], LD[rng.below(3)]));
            }
            for (c, a, b, script, boom, o, f) in cases {
                let s2 = script.clone();
                let r = timed(20, move || {
                    x.call(Store, c, 0, Ordering::Relaxed, Ordering::Relaxed);
                    let given = RefCell::new(Vec::<u128>::new());
                    let had = RefCell::new(Vec::<u128>::new());
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| x.call_inj(Upd, a, b, o, f, &mut |v| {
                        let k = given.borrow().len();
                        let now = match x.call(Load, 0, 0, Ordering::SeqCst, Ordering::SeqCst) { Ret::V(v) => v, _ => 0 };
                        had.borrow_mut().push(now);
                        given.borrow_mut().push(v);
                        if k < s2.len() {
                            if k % 2 == 0 { x.call(Store, s2[k], 0, Ordering::Relaxed, Ordering::Relaxed); } else { x.call(Swap, s2[k], 0, Ordering::AcqRel, Ordering::Relaxed); }
                        }
                        if boom && k == s2.len() { panic!("closure"); }
                        if k > s2.len() + 1000 { panic!("the closure is called without end"); }
                    }))).unwrap_or(Ret::Panic);
                    let n = match x.call(Load, 0, 0, Ordering::SeqCst, Ordering::SeqCst) { Ret::V(v) => v, _ => 0 };
                    x.call(Store, c, 0, Ordering::SeqCst, Ordering::SeqCst);
                    let after = x.call(Swap, a, 0, Ordering::SeqCst, Ordering::SeqCst) == Ret::V(c);
                    (r, n, given.into_inner(), had.into_inner(), after)
                });
                let hung = r.is_none();
                let (r, n, given, had, after) = r.unwrap_or((Ret::Panic, c, vec![], vec![], false));
                let list = |v: &Vec<u128>| v.iter().map(|x| limbs(*x, &info)).collect::<Vec<_>>().join(",");
                line(format!("{{\"q\":\"inj\",\"t\":\"{}\",\"w\":{},\"K\":\"{}\",\"z\":{},\"c\":{},\"a\":{},\"b\":{},\"script\":[{}],\"boom\":{},\"o\":\"{}\",\"f\":\"{}\",{},\"n\":{},\"given\":[{}],\"had\":[{}],\"after\":{}}}",
                    info.name, info.bits, kind(&info), info.size_of, limbs(c, &info), limbs(a, &info), limbs(b, &info), list(&script), boom as u8, ord_name(o), ord_name(f),
                    ret_json(r, &info), limbs(n, &info), list(&given), list(&had), after as u8));
                if hung { return; }
            }
        }
    });
}
