// Uniform view of every atomic type of the library: one `call` entry point per type.
use core::sync::atomic::Ordering;
use portable_atomic as pa;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Op {
    Load, Store, Swap, Cas, CasW,
    Add, Sub, And, Nand, Or, Xor, Max, Min, Not, Neg,
    NAdd, NSub, NAnd, NOr, NXor, NNot, NNeg,
    BitSet, BitClear, BitToggle,
    Upd, Abs, PAdd, PSub, BAdd, BSub,
}
pub use Op::*;
pub const ALL_OPS: &[Op] = &[
    Load, Store, Swap, Cas, CasW, Add, Sub, And, Nand, Or, Xor, Max, Min, Not, Neg, NAdd, NSub, NAnd,
    NOr, NXor, NNot, NNeg, BitSet, BitClear, BitToggle, Upd, Abs, PAdd, PSub, BAdd, BSub,
];
impl Op {
    pub fn name(self) -> &'static str {
        match self {
            Load => "load", Store => "store", Swap => "swap", Cas => "cas", CasW => "casw",
            Add => "fadd", Sub => "fsub", And => "fand", Nand => "fnand", Or => "for", Xor => "fxor",
            Max => "fmax", Min => "fmin", Not => "fnot", Neg => "fneg",
            NAdd => "add", NSub => "sub", NAnd => "and", NOr => "or", NXor => "xor", NNot => "not", NNeg => "neg",
            BitSet => "bset", BitClear => "bclr", BitToggle => "btog",
            Upd => "upd", Abs => "fabs", PAdd => "padd", PSub => "psub", BAdd => "badd", BSub => "bsub",
        }
    }
    pub fn parse(s: &str) -> Op {
        for &o in ALL_OPS { if o.name() == s { return o; } }
        panic!("unknown op {s}")
    }
    /// Number of value arguments.
    pub fn arity(self) -> usize {
        match self {
            Load | Not | Neg | NNot | NNeg | Abs => 0,
            Cas | CasW | Upd => 2,
            _ => 1,
        }
    }
    pub fn is_bit(self) -> bool { matches!(self, BitSet | BitClear | BitToggle) }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Ret { V(u128), U, B(bool), Ok(u128), Err(u128), Panic, None, Hang, Fault }

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind { UInt, SInt, Bool, Ptr, Float }

#[derive(Clone, Copy, Debug)]
pub struct Info { pub name: &'static str, pub bits: u32, pub kind: Kind, pub size_of: u128 }
impl Info {
    pub fn mask(&self) -> u128 { if self.bits >= 128 { !0 } else { (1u128 << self.bits) - 1 } }
}

pub const RMW: &[Ordering] = &[Ordering::Relaxed, Ordering::Acquire, Ordering::Release, Ordering::AcqRel, Ordering::SeqCst];
pub const LD: &[Ordering] = &[Ordering::Relaxed, Ordering::Acquire, Ordering::SeqCst];
pub const ST: &[Ordering] = &[Ordering::Relaxed, Ordering::Release, Ordering::SeqCst];

pub fn ord_name(o: Ordering) -> &'static str {
    match o { Ordering::Relaxed => "rlx", Ordering::Acquire => "acq", Ordering::Release => "rel", Ordering::AcqRel => "ar", Ordering::SeqCst => "sc", _ => "?" }
}
pub fn parse_ord(s: &str) -> Ordering {
    match s { "rlx" => Ordering::Relaxed, "acq" => Ordering::Acquire, "rel" => Ordering::Release, "ar" => Ordering::AcqRel, "sc" => Ordering::SeqCst, _ => panic!("ord {s}") }
}

/// Called by fetch_update closures with the observed bits; lets drivers inject interference.
pub type Inject<'a> = &'a mut dyn FnMut(u128);

pub trait Cell: Sync + Send {
    fn info(&self) -> Info;
    fn supports(&self, op: Op) -> bool;
    /// `a`, `b`: arguments as raw bits (bit index for bit ops; Cas: a = expected, b = new;
    /// Upd: new = cur + a, None when cur == b).
    fn call(&self, op: Op, a: u128, b: u128, o: Ordering, f: Ordering) -> Ret { self.call_inj(op, a, b, o, f, &mut |_| {}) }
    fn call_inj(&self, op: Op, a: u128, b: u128, o: Ordering, f: Ordering, inj: Inject) -> Ret;
    /// A function of its own for the commonest calls, so that nothing stands between two of them.
    fn fast(&self, op: Op, o: Ordering) -> Option<Fast>;
    fn raw_ptr(&self) -> *mut u8;
    fn lock_free(&self) -> (bool, bool);
    fn get_mut_read(&mut self) -> u128;
    fn get_mut_write(&mut self, v: u128);
}

/// The result in registers (0 where there is none): no memory is touched but the atomic.
pub type Fast = fn(*mut u8, u128) -> u128;
macro_rules! fast_ops {
    ($At:ty, $from:expr, $to:expr) => {
        fn fast(&self, op: Op, o: Ordering) -> Option<Fast> {
            macro_rules! f { ($c:ident, $a:ident, $e:expr) => { Some(|p: *mut u8, $a: u128| -> u128 { let $c = unsafe { &*(p as *const $At) }; $e }) } }
            match (op, o) {
                (Load, Ordering::Relaxed) => f!(c, _a, $to(c.load(Ordering::Relaxed))),
                (Load, Ordering::Acquire) => f!(c, _a, $to(c.load(Ordering::Acquire))),
                (Load, Ordering::SeqCst) => f!(c, _a, $to(c.load(Ordering::SeqCst))),
                (Store, Ordering::Relaxed) => f!(c, a, { c.store($from(a), Ordering::Relaxed); 0 }),
                (Store, Ordering::Release) => f!(c, a, { c.store($from(a), Ordering::Release); 0 }),
                (Store, Ordering::SeqCst) => f!(c, a, { c.store($from(a), Ordering::SeqCst); 0 }),
                (Swap, Ordering::SeqCst) => f!(c, a, $to(c.swap($from(a), Ordering::SeqCst))),
                _ => None,
            }
        }
    };
}
macro_rules! cas_ret { ($e:expr, $to:expr) => { match $e { Ok(v) => Ret::Ok($to(v)), Err(v) => Ret::Err($to(v)) } } }

macro_rules! int_cell {
    ($At:ident, $t:ident, $ut:ident, $kind:ident, $bits:expr) => {
        impl Cell for pa::$At {
            fn info(&self) -> Info { Info { name: stringify!($t), bits: $bits, kind: Kind::$kind, size_of: 1 } }
            fast_ops!(pa::$At, |a: u128| a as $t, |v: $t| v as $ut as u128);
            fn supports(&self, op: Op) -> bool { !matches!(op, Abs | PAdd | PSub | BAdd | BSub) }
            fn call_inj(&self, op: Op, a: u128, b: u128, o: Ordering, f: Ordering, inj: Inject) -> Ret {
                let to = |v: $t| v as $ut as u128;
                let (x, y, bit) = (a as $t, b as $t, a as u32);
                match op {
                    Load => Ret::V(to(self.load(o))),
                    Store => { self.store(x, o); Ret::U }
                    Swap => Ret::V(to(self.swap(x, o))),
                    Cas => cas_ret!(self.compare_exchange(x, y, o, f), to),
                    CasW => cas_ret!(self.compare_exchange_weak(x, y, o, f), to),
                    Add => Ret::V(to(self.fetch_add(x, o))),
                    Sub => Ret::V(to(self.fetch_sub(x, o))),
                    And => Ret::V(to(self.fetch_and(x, o))),
                    Nand => Ret::V(to(self.fetch_nand(x, o))),
                    Or => Ret::V(to(self.fetch_or(x, o))),
                    Xor => Ret::V(to(self.fetch_xor(x, o))),
                    Max => Ret::V(to(self.fetch_max(x, o))),
                    Min => Ret::V(to(self.fetch_min(x, o))),
                    Not => Ret::V(to(self.fetch_not(o))),
                    Neg => Ret::V(to(self.fetch_neg(o))),
                    NAdd => { self.add(x, o); Ret::U }
                    NSub => { self.sub(x, o); Ret::U }
                    NAnd => { self.and(x, o); Ret::U }
                    NOr => { self.or(x, o); Ret::U }
                    NXor => { self.xor(x, o); Ret::U }
                    NNot => { self.not(o); Ret::U }
                    NNeg => { self.neg(o); Ret::U }
                    BitSet => Ret::B(self.bit_set(bit, o)),
                    BitClear => Ret::B(self.bit_clear(bit, o)),
                    BitToggle => Ret::B(self.bit_toggle(bit, o)),
                    Upd => cas_ret!(self.fetch_update(o, f, |v| { inj(to(v)); if v == y { None } else { Some(v.wrapping_add(x)) } }), to),
                    _ => unreachable!(),
                }
            }
            fn raw_ptr(&self) -> *mut u8 { self.as_ptr() as *mut u8 }
            fn lock_free(&self) -> (bool, bool) { (pa::$At::is_lock_free(), pa::$At::is_always_lock_free()) }
            fn get_mut_read(&mut self) -> u128 { *self.get_mut() as $ut as u128 }
            fn get_mut_write(&mut self, v: u128) { *self.get_mut() = v as $t; }
        }
    };
}
int_cell!(AtomicU8, u8, u8, UInt, 8);
int_cell!(AtomicI8, i8, u8, SInt, 8);
int_cell!(AtomicU16, u16, u16, UInt, 16);
int_cell!(AtomicI16, i16, u16, SInt, 16);
int_cell!(AtomicU32, u32, u32, UInt, 32);
int_cell!(AtomicI32, i32, u32, SInt, 32);
int_cell!(AtomicU64, u64, u64, UInt, 64);
int_cell!(AtomicI64, i64, u64, SInt, 64);
int_cell!(AtomicU128, u128, u128, UInt, 128);
int_cell!(AtomicI128, i128, u128, SInt, 128);
int_cell!(AtomicUsize, usize, usize, UInt, usize::BITS);
int_cell!(AtomicIsize, isize, usize, SInt, usize::BITS);

impl Cell for pa::AtomicBool {
    fn info(&self) -> Info { Info { name: "bool", bits: 1, kind: Kind::Bool, size_of: 1 } }
    fast_ops!(pa::AtomicBool, |a: u128| a & 1 == 1, |v: bool| unsafe { core::ptr::read_volatile(&v as *const bool as *const u8) as u128 });
    fn supports(&self, op: Op) -> bool {
        matches!(op, Load | Store | Swap | Cas | CasW | And | Nand | Or | Xor | Not | NAnd | NOr | NXor | NNot | Upd)
    }
    fn call_inj(&self, op: Op, a: u128, b: u128, o: Ordering, f: Ordering, inj: Inject) -> Ret {
        // Look at the bytes: a bool that is neither 0 nor 1 must be seen, not assumed away.
        let to = |v: bool| unsafe { core::ptr::read_volatile(&v as *const bool as *const u8) as u128 };
        let (x, y) = (a & 1 == 1, b & 1 == 1);
        match op {
            Load => Ret::V(to(self.load(o))),
            Store => { self.store(x, o); Ret::U }
            Swap => Ret::V(to(self.swap(x, o))),
            Cas => cas_ret!(self.compare_exchange(x, y, o, f), to),
            CasW => cas_ret!(self.compare_exchange_weak(x, y, o, f), to),
            And => Ret::V(to(self.fetch_and(x, o))),
            Nand => Ret::V(to(self.fetch_nand(x, o))),
            Or => Ret::V(to(self.fetch_or(x, o))),
            Xor => Ret::V(to(self.fetch_xor(x, o))),
            Not => Ret::V(to(self.fetch_not(o))),
            NAnd => { self.and(x, o); Ret::U }
            NOr => { self.or(x, o); Ret::U }
            NXor => { self.xor(x, o); Ret::U }
            NNot => { self.not(o); Ret::U }
            Upd => cas_ret!(self.fetch_update(o, f, |v| { inj(to(v)); if v == y { None } else { Some(v ^ x) } }), to),
            _ => unreachable!(),
        }
    }
    fn raw_ptr(&self) -> *mut u8 { self.as_ptr() as *mut u8 }
    fn lock_free(&self) -> (bool, bool) { (pa::AtomicBool::is_lock_free(), pa::AtomicBool::is_always_lock_free()) }
    fn get_mut_read(&mut self) -> u128 { *self.get_mut() as u128 }
    fn get_mut_write(&mut self, v: u128) { *self.get_mut() = v & 1 == 1; }
}

macro_rules! ptr_cell {
    ($t:ty, $name:expr) => {
        impl Cell for pa::AtomicPtr<$t> {
            fn info(&self) -> Info { Info { name: $name, bits: usize::BITS, kind: Kind::Ptr, size_of: core::mem::size_of::<$t>() as u128 } }
            fast_ops!(pa::AtomicPtr<$t>, |a: u128| a as usize as *mut $t, |v: *mut $t| v as usize as u128);
            fn supports(&self, op: Op) -> bool {
                matches!(op, Load | Store | Swap | Cas | CasW | And | Or | Xor | BitSet | BitClear | BitToggle | Upd | PAdd | PSub | BAdd | BSub)
            }
            fn call_inj(&self, op: Op, a: u128, b: u128, o: Ordering, f: Ordering, inj: Inject) -> Ret {
                let to = |v: *mut $t| v as usize as u128;
                let (x, y, n, bit) = (a as usize as *mut $t, b as usize as *mut $t, a as usize, a as u32);
                match op {
                    Load => Ret::V(to(self.load(o))),
                    Store => { self.store(x, o); Ret::U }
                    Swap => Ret::V(to(self.swap(x, o))),
                    Cas => cas_ret!(self.compare_exchange(x, y, o, f), to),
                    CasW => cas_ret!(self.compare_exchange_weak(x, y, o, f), to),
                    And => Ret::V(to(self.fetch_and(n, o))),
                    Or => Ret::V(to(self.fetch_or(n, o))),
                    Xor => Ret::V(to(self.fetch_xor(n, o))),
                    BitSet => Ret::B(self.bit_set(bit, o)),
                    BitClear => Ret::B(self.bit_clear(bit, o)),
                    BitToggle => Ret::B(self.bit_toggle(bit, o)),
                    PAdd => Ret::V(to(self.fetch_ptr_add(n, o))),
                    PSub => Ret::V(to(self.fetch_ptr_sub(n, o))),
                    BAdd => Ret::V(to(self.fetch_byte_add(n, o))),
                    BSub => Ret::V(to(self.fetch_byte_sub(n, o))),
                    Upd => cas_ret!(self.fetch_update(o, f, |v| { inj(to(v)); if v == y { None } else { Some((v as usize).wrapping_add(n) as *mut $t) } }), to),
                    _ => unreachable!(),
                }
            }
            fn raw_ptr(&self) -> *mut u8 { self.as_ptr() as *mut u8 }
            fn lock_free(&self) -> (bool, bool) { (pa::AtomicPtr::<$t>::is_lock_free(), pa::AtomicPtr::<$t>::is_always_lock_free()) }
            fn get_mut_read(&mut self) -> u128 { *self.get_mut() as usize as u128 }
            fn get_mut_write(&mut self, v: u128) { *self.get_mut() = v as usize as *mut $t; }
        }
    };
}
ptr_cell!((), "ptr0");
ptr_cell!(u8, "ptr1");
ptr_cell!([u8; 3], "ptr3");
ptr_cell!(u64, "ptr8");
ptr_cell!([u8; 24], "ptr24");
ptr_cell!([u8; 4096], "ptr4096");

/// Ops on floats whose result the specification takes from the plain operation.
pub fn float_oracle(_name: &str, _op: Op, _cur: u128, _a: u128) -> u128 {
    macro_rules! go { ($f:ident, $u:ident) => {{
        let (c, x) = ($f::from_bits(_cur as $u), $f::from_bits(_a as $u));
        match _op { Add => (c + x).to_bits() as u128, Sub => (c - x).to_bits() as u128, _ => 0 }
    }} }
    match _name {
        "f32" => go!(f32, u32),
        "f64" => go!(f64, u64),
        #[cfg(portable_atomic_unstable_f16)]
        "f16" => go!(f16, u16),
        #[cfg(portable_atomic_unstable_f128)]
        "f128" => go!(f128, u128),
        _ => 0,
    }
}

macro_rules! float_cell {
    ($At:ident, $t:ident, $ut:ident, $bits:expr) => {
        impl Cell for pa::$At {
            fn info(&self) -> Info { Info { name: stringify!($t), bits: $bits, kind: Kind::Float, size_of: 1 } }
            fast_ops!(pa::$At, |a: u128| $t::from_bits(a as $ut), |v: $t| v.to_bits() as u128);
            fn supports(&self, op: Op) -> bool {
                matches!(op, Load | Store | Swap | Cas | CasW | Add | Sub | Max | Min | Neg | Abs | Upd)
            }
            fn call_inj(&self, op: Op, a: u128, b: u128, o: Ordering, f: Ordering, inj: Inject) -> Ret {
                let to = |v: $t| v.to_bits() as u128;
                let (x, y) = ($t::from_bits(a as $ut), $t::from_bits(b as $ut));
                match op {
                    Load => Ret::V(to(self.load(o))),
                    Store => { self.store(x, o); Ret::U }
                    Swap => Ret::V(to(self.swap(x, o))),
                    Cas => cas_ret!(self.compare_exchange(x, y, o, f), to),
                    CasW => cas_ret!(self.compare_exchange_weak(x, y, o, f), to),
                    Add => Ret::V(to(self.fetch_add(x, o))),
                    Sub => Ret::V(to(self.fetch_sub(x, o))),
                    Max => Ret::V(to(self.fetch_max(x, o))),
                    Min => Ret::V(to(self.fetch_min(x, o))),
                    Neg => Ret::V(to(self.fetch_neg(o))),
                    Abs => Ret::V(to(self.fetch_abs(o))),
                    Upd => cas_ret!(self.fetch_update(o, f, |v| { inj(to(v)); if to(v) == b { None } else { Some($t::from_bits(v.to_bits().wrapping_add(a as $ut))) } }), to),
                    _ => unreachable!(),
                }
            }
            fn raw_ptr(&self) -> *mut u8 { self.as_ptr() as *mut u8 }
            fn lock_free(&self) -> (bool, bool) { (pa::$At::is_lock_free(), pa::$At::is_always_lock_free()) }
            fn get_mut_read(&mut self) -> u128 { self.get_mut().to_bits() as u128 }
            fn get_mut_write(&mut self, v: u128) { *self.get_mut() = $t::from_bits(v as $ut); }
        }
    };
}
float_cell!(AtomicF32, f32, u32, 32);
float_cell!(AtomicF64, f64, u64, 64);
#[cfg(portable_atomic_unstable_f16)]
float_cell!(AtomicF16, f16, u16, 16);
#[cfg(portable_atomic_unstable_f128)]
float_cell!(AtomicF128, f128, u128, 128);

/// Runs `$body` with `$T` bound to each atomic type in turn.
#[macro_export]
macro_rules! for_each_type {
    ($T:ident => $body:expr) => {{
        use portable_atomic as pa;
        { type $T = pa::AtomicU8; $body } { type $T = pa::AtomicI8; $body }
        { type $T = pa::AtomicU16; $body } { type $T = pa::AtomicI16; $body }
        { type $T = pa::AtomicU32; $body } { type $T = pa::AtomicI32; $body }
        { type $T = pa::AtomicU64; $body } { type $T = pa::AtomicI64; $body }
        { type $T = pa::AtomicU128; $body } { type $T = pa::AtomicI128; $body }
        { type $T = pa::AtomicUsize; $body } { type $T = pa::AtomicIsize; $body }
        { type $T = pa::AtomicBool; $body }
        { type $T = pa::AtomicPtr<()>; $body } { type $T = pa::AtomicPtr<u8>; $body }
        { type $T = pa::AtomicPtr<[u8; 3]>; $body } { type $T = pa::AtomicPtr<u64>; $body }
        { type $T = pa::AtomicPtr<[u8; 24]>; $body } { type $T = pa::AtomicPtr<[u8; 4096]>; $body }
        { type $T = pa::AtomicF32; $body } { type $T = pa::AtomicF64; $body }
        #[cfg(portable_atomic_unstable_f16)]
        { type $T = pa::AtomicF16; $body }
        #[cfg(portable_atomic_unstable_f128)]
        { type $T = pa::AtomicF128; $body }
    }};
}

/// Makes a default (all-zero) boxed cell of the named type; 16-byte aligned places.
pub fn by_name(name: &str) -> Option<std::boxed::Box<dyn Cell>> {
    let mut out: Option<std::boxed::Box<dyn Cell>> = None;
    for_each_type!(T => {
        let c: T = T::default();
        if Cell::info(&c).name == name { out = Some(std::boxed::Box::new(c)); }
    });
    out
}
