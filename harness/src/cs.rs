// The critical-section implementation the library calls in the `cs` build. It is the whole "rest of
// the system": when a section is entered or left it changes the atomic, as another context would, and
// it checks tokens and nesting. One JSON line per operation for spec/CritSecTrace.tla.
use crate::for_each_type;
use crate::ops::*;
use crate::rng::{hash, Rng};
use crate::seq::{arg_json, boundary, kind, limbs, ret_json};
use core::cell::UnsafeCell;
use core::sync::atomic::{AtomicU64, Ordering};
use std::io::Write;

static ACQ: AtomicU64 = AtomicU64::new(0);
pub fn acquired() -> u64 { ACQ.load(Ordering::SeqCst) }

struct St { on: bool, ptr: *mut u8, size: usize, values: Vec<u128>, pos: usize, events: Vec<String>, depth: i32, token: u8, open: Vec<u8>, info: Option<Info> }
struct Gs(UnsafeCell<Option<St>>);
unsafe impl Sync for Gs {}
static G: Gs = Gs(UnsafeCell::new(None));
#[allow(clippy::mut_from_ref)]
fn st() -> &'static mut St {
    let g = unsafe { &mut *G.0.get() };
    g.get_or_insert_with(|| St { on: false, ptr: core::ptr::null_mut(), size: 0, values: vec![], pos: 0, events: vec![], depth: 0, token: 7, open: vec![], info: None })
}
impl St {
    fn read(&self) -> u128 { let mut b = [0u8; 16]; unsafe { for k in 0..self.size { b[k] = self.ptr.add(k).read_volatile(); } } u128::from_le_bytes(b) }
    fn write(&self, v: u128) { let b = v.to_le_bytes(); unsafe { for k in 0..self.size { self.ptr.add(k).write_volatile(b[k]); } } }
    /// Another context modifies the atomic here (unless a section is open).
    fn interfere(&mut self, at: &str) {
        let seen = self.read();
        let i = self.info.unwrap();
        let next = if self.pos < self.values.len() { self.values[self.pos] } else { seen };
        self.pos += 1;
        self.write(next);
        self.events.push(format!("{{\"e\":\"{at}\",\"seen\":{},\"set\":{}}}", limbs(seen, &i), limbs(next, &i)));
    }
}

// Single-threaded drivers only turn `on`; threads of other commands just count and exclude.
static LOCK: AtomicU64 = AtomicU64::new(0);
#[no_mangle]
unsafe fn _critical_section_1_0_acquire() -> u8 {
    ACQ.fetch_add(1, Ordering::SeqCst);
    if !ON.load(Ordering::Relaxed) {
        // a real section for multi-threaded commands
        loop {
            if LOCK.compare_exchange(0, 1, Ordering::Acquire, Ordering::Relaxed).is_ok() { return 1; }
            std::thread::yield_now();
        }
    }
    let s = st();
    if s.depth == 0 { s.interfere("acq"); } else { s.events.push("{\"e\":\"nested\",\"seen\":[],\"set\":[]}".into()); }
    s.depth += 1;
    s.token = s.token.wrapping_mul(13).wrapping_add(11);
    s.open.push(s.token);
    s.token
}
#[no_mangle]
unsafe fn _critical_section_1_0_release(t: u8) {
    if !ON.load(Ordering::Relaxed) { LOCK.store(0, Ordering::Release); return; }
    let s = st();
    let ok = s.open.pop() == Some(t);
    s.depth -= 1;
    if !ok { s.events.push("{\"e\":\"token\",\"seen\":[],\"set\":[]}".into()); }
    if s.depth == 0 { s.interfere("rel"); }
}
static ON: core::sync::atomic::AtomicBool = core::sync::atomic::AtomicBool::new(false);

fn run_type(x: &dyn Cell, size: usize, seed: u64, n: usize, ops: &str, out: &mut dyn Write) {
    let i = x.info();
    let bnd = boundary(i.bits, i.kind);
    let mut rng = Rng::new(seed ^ hash(&[i.bits as u128, i.kind as u128, i.size_of]));
    for &op in ALL_OPS {
        if !x.supports(op) || ops != "all" && !ops.split(',').any(|o| o == op.name()) { continue; }
        let two = matches!(op, Cas | CasW | Upd);
        for case in 0..n {
            let mut v = || { match rng.below(3) { 0 => bnd[rng.below(bnd.len())], 1 => rng.u128() & i.mask(), _ => (rng.u128() & i.mask()) >> rng.below(i.bits as usize) } };
            let (c0, c1, a0, b) = (v(), v(), v(), v());
            // interference: often the same value, so that compare-exchanges meet their expectation
            let vals: Vec<u128> = (0..12).map(|k| if k == 0 { c1 } else if rng.below(3) == 0 { c1 } else { rng.u128() & i.mask() }).collect();
            let a = match op { Cas | CasW => if case % 4 != 0 { c1 } else { a0 }, _ if op.is_bit() => a0 as u32 as u128, _ => a0 };
            let b = match op { Upd => if case % 3 == 0 { c1 } else { b }, _ => b };
            // valid and invalid orderings
            let o = RMW[rng.below(5)];
            let f = if two { RMW[rng.below(5)] } else { Ordering::Relaxed };
            x.raw_ptr();
            let s = st();
            *s = St { on: true, ptr: x.raw_ptr(), size, values: vals, pos: 0, events: vec![], depth: 0, token: rng.below(250) as u8, open: vec![], info: Some(i) };
            s.write(c0);
            ON.store(true, Ordering::Relaxed);
            let mut user = Vec::new();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| x.call_inj(op, a, b, o, f, &mut |v| { let s = st(); user.push(s.depth); s.events.push(format!("{{\"e\":\"user\",\"seen\":{},\"set\":[{}]}}", limbs(v, &i), s.depth)); }))).unwrap_or(Ret::Panic);
            ON.store(false, Ordering::Relaxed);
            let s = st();
            let fin = s.read();
            // what the plain float operation gives for the value the operation says it replaced
            let orc = match r { Ret::V(v) if i.kind == Kind::Float => float_oracle(i.name, op, v, a), _ => 0 };
            let _ = writeln!(out, "{{\"q\":\"cs\",\"t\":\"{}\",\"w\":{},\"K\":\"{}\",\"z\":{},\"op\":\"{}\",\"c\":{},\"a\":{},\"b\":{},\"x\":{},\"o\":\"{}\",\"f\":\"{}\",{},\"n\":{},\"depth\":{},\"ev\":[{}]}}",
                i.name, i.bits, kind(&i), i.size_of, op.name(), limbs(c0, &i), arg_json(op, a, &i), if op.arity() == 2 { limbs(b, &i) } else { "[]".into() }, if i.kind == Kind::Float { limbs(orc, &i) } else { "[]".into() },
                ord_name(o), if two { ord_name(f) } else { "rlx" }, ret_json(r, &i), limbs(fin, &i), s.depth, s.events.join(","));
        }
    }
}
pub fn run(seed: u64, n: usize, ops: &str) {
    let mut out = std::io::BufWriter::new(std::io::stdout());
    for_each_type!(T => run_type(&T::default(), core::mem::size_of::<T>(), seed, n, ops, &mut out));
}
