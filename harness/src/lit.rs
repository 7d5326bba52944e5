//! Small concurrent programs over atomics, run under the simulator, on real threads, or instruction
//! by instruction. The set of observed outcomes is printed; spec/WeakMem.tla says which are allowed.
//!
//! A program is one line:   id ; type@offset=init ... ; op.loc.a.b.ord.ford ... ; ... ; ...
//! Values are raw bits in hexadecimal; outcomes list every result, then every atomic's final value.
use crate::for_each_type;
use crate::ops::*;
use core::sync::atomic::Ordering;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct LOp { pub op: Option<Op>, pub kind: u8, pub loc: usize, pub a: u128, pub b: u128, pub o: Ordering, pub f: Ordering }
#[derive(Clone, Debug)]
pub struct LLoc { pub ty: String, pub off: usize, pub init: u128 }
#[derive(Clone, Debug)]
pub struct Prog { pub id: String, pub locs: Vec<LLoc>, pub ths: Vec<Vec<LOp>> }

pub fn show_ret(i: &Info, r: Ret) -> String { format!("{{{}}}", crate::seq::ret_json(r, i)) }
fn hex(s: &str) -> u128 { u128::from_str_radix(s, 16).unwrap() }

pub fn parse(text: &str) -> Vec<Prog> {
    text.lines().filter(|l| !l.trim().is_empty()).map(|l| {
        let mut s = l.split(';').map(|x| x.trim());
        let id = s.next().unwrap().to_string();
        let locs = s.next().unwrap().split_whitespace().map(|t| {
            let (ty, r) = t.split_once('@').unwrap();
            let (off, init) = r.split_once('=').unwrap();
            LLoc { ty: ty.into(), off: off.parse().unwrap(), init: hex(init) }
        }).collect();
        let ths = s.map(|t| t.split_whitespace().map(|o| {
            let p: Vec<&str> = o.split('.').collect();
            let kind = match p[0] { "fence" => 1, "upanic" => 2, "badld" => 3, "badst" => 4, "badcas" => 5, "skip" => 6, _ => 0 };
            LOp { op: if kind == 0 { Some(Op::parse(p[0])) } else { None }, kind, loc: p[1].parse().unwrap(), a: hex(p[2]), b: hex(p[3]), o: parse_ord(p[4]), f: parse_ord(p[5]) }
        }).collect()).collect();
        Prog { id, locs, ths }
    }).collect()
}

/// Memory the atomics live in; the offset modulo 1072 (67 * 16) decides which internal lock they use.
pub const ARENA: usize = 1 << 16;
#[repr(C, align(8192))]
pub struct Arena(pub [u8; ARENA]);
pub fn arena() -> &'static mut Arena {
    let l = std::alloc::Layout::new::<Arena>();
    unsafe { &mut *(std::alloc::alloc_zeroed(l) as *mut Arena) }
}

pub fn cell_at(ty: &str, p: *mut u8) -> &'static dyn Cell {
    let mut out: Option<&'static dyn Cell> = None;
    for_each_type!(T => {
        let c: T = T::default();
        if Cell::info(&c).name == ty {
            assert_eq!(p as usize % core::mem::align_of::<T>(), 0);
            out = Some(unsafe { &*(p as *const T) });
        }
    });
    out.unwrap_or_else(|| panic!("no type {ty}"))
}
pub unsafe fn put(c: &dyn Cell, v: u128) {
    let i = c.info();
    let n = if i.kind == Kind::Bool { 1 } else { i.bits as usize / 8 };
    let b = v.to_le_bytes();
    for k in 0..n { c.raw_ptr().add(k).write_volatile(b[k]); }
}
fn final_value(c: &dyn Cell, i: &Info) -> String { match c.call(Op::Load, 0, 0, Ordering::Acquire, Ordering::Relaxed) { Ret::V(v) => crate::seq::limbs(v, i), _ => unreachable!() } }
pub fn run_op(cells: &[&'static dyn Cell], infos: &[Info], op: &LOp) -> String {
    use std::panic::{catch_unwind, AssertUnwindSafe};
    if op.kind == 1 { portable_atomic::fence(op.o); return show_ret(&infos[0], Ret::U); }
    let (c, i) = (cells[op.loc], &infos[op.loc]);
    match op.kind {
        0 => {
            let o = op.op.unwrap();
            show_ret(i, c.call(o, op.a, op.b, op.o, op.f))
        }
        2 => match catch_unwind(AssertUnwindSafe(|| c.call_inj(Op::Upd, op.a, op.b, op.o, op.f, &mut |_| panic!()))) { Ok(r) => show_ret(i, r), Err(_) => show_ret(i, Ret::Panic) },
        3 => match catch_unwind(AssertUnwindSafe(|| c.call(Op::Load, 0, 0, Ordering::Release, op.f))) { Ok(r) => show_ret(i, r), Err(_) => show_ret(i, Ret::Panic) },
        4 => match catch_unwind(AssertUnwindSafe(|| c.call(Op::Store, op.a, 0, Ordering::Acquire, op.f))) { Ok(r) => show_ret(i, r), Err(_) => show_ret(i, Ret::Panic) },
        _ => match catch_unwind(AssertUnwindSafe(|| c.call(Op::Cas, op.a, op.b, op.o, Ordering::Release))) { Ok(r) => show_ret(i, r), Err(_) => show_ret(i, Ret::Panic) },
    }
}

/// Results in program order, thread after thread; final values.
pub type Outcome = (Vec<String>, Vec<String>);

pub fn emit(p: &Prog, outs: &BTreeMap<Outcome, u64>, execs: u64, note: &str) {
    use std::io::Write;
    let mut s = format!("{{\"p\":\"{}\",\"n\":{execs},\"note\":\"{note}\",\"outs\":[", p.id);
    for (k, (o, _)) in outs.iter().enumerate() {
        if k > 0 { s.push(','); }
        s += &format!("{{\"res\":[{}],\"fin\":[{}]}}", o.0.join(","), o.1.join(","));
    }
    s += "]}";
    let mut o = std::io::stdout().lock();
    let _ = writeln!(o, "{s}");
    let _ = o.flush();
}

// ------------------------------------------------------------------------------- simulator
#[cfg(feature = "sim")]
pub mod simrun {
    use super::*;
    use crate::sim::{self, Budget, Mode};
    use std::cell::RefCell;
    pub struct P { pub preempt: u32, pub stale: u32, pub max: u64, pub random: u64, pub seed: u64, pub wrap: bool }

    fn one(p: &Prog, base: &mut Arena, cells: &[&'static dyn Cell], infos: &[Info], b: &Budget) -> Outcome {
        let s = sim::get();
        for (c, l) in cells.iter().zip(&p.locs) { unsafe { put(*c, l.init) }; }
        let res: Vec<RefCell<Vec<String>>> = p.ths.iter().map(|_| RefCell::new(vec![])).collect();
        let fin = RefCell::new(vec![]);
        let range = (base.0.as_ptr() as usize, base.0.as_ptr() as usize + ARENA);
        let bodies: Vec<Box<dyn FnMut()>> = p.ths.iter().zip(&res).map(|(ops, r)| {
            let f: Box<dyn FnMut()> = Box::new(move || { for o in ops { if o.kind == 6 { sim::skip(o.a as u64); continue; } let x = run_op(cells, infos, o); r.borrow_mut().push(x); } });
            f
        }).collect();
        let last: Box<dyn FnMut()> = Box::new(|| { for (c, i) in cells.iter().zip(infos) { let x = final_value(*c, i); fin.borrow_mut().push(x); } });
        if !s.execute(range, b, bodies, last) { return (vec!["{\"k\":\"hang\",\"r\":[]}".into()], vec![]); }
        let mut out: Vec<String> = vec![];
        for r in &res { out.extend(r.borrow().iter().cloned()); }
        (out, fin.into_inner())
    }
    /// What single operations do to the library's own words, around the values where those wrap.
    pub fn versions(types: &str) {
        use Op::*;
        let base = arena();
        let s = sim::get();
        for ty in types.split(',') {
            let cell = cell_at(ty, unsafe { base.0.as_mut_ptr().add(64) });
            let info = cell.info();
            let m = info.mask();
            let p = |k: u8| u128::from_le_bytes([k; 16]) & m;
            let mut calls: Vec<Vec<(Op, u128, u128)>> = vec![];
            for op in ALL_OPS.iter().copied().filter(|&o| cell.supports(o)) {
                match op {
                    Cas | CasW | Upd => calls.extend([vec![(op, p(1), p(2))], vec![(op, p(3), p(2))], vec![(op, p(1), p(1))], vec![(op, p(1) ^ 1, p(2))], vec![(op, p(1) ^ 1 << (info.bits - 1), p(2))]]),
                    _ => calls.extend([vec![(op, p(2), 0)], vec![(op, 0, 0)], vec![(op, p(1), 0)]]),
                }
            }
            for a in [Store, Swap, Add] { calls.push(vec![(a, p(2), 0), (a, p(4), 0), (Cas, p(8), p(9)), (a, p(2), 0), (Load, 0, 0), (a, p(5), 0)]); }
            for st in [[0u64, 0], [2, 0], [!1, 0], [!3, 0], [!1, !0], [!1, 7], [0xffff_fffe, 0], [0xffff_fffc, 1], [0x7fff_fffe, 0], [0x1_0000_0000, 5]] {
                for seq in &calls {
                    // one step more at a time: what the words are after each
                    let mut hist: Vec<Vec<u64>> = vec![];
                    let (mut k, mut r, mut n) = (0, Ret::U, p(1));
                    let mut marks: Vec<u64> = vec![];
                    let mut start: Vec<(usize, usize, u64, bool)> = vec![];
                    let mut orig: Vec<(usize, usize, u64)> = vec![];
                    while k <= seq.len() {
                        unsafe { put(cell, p(1)) };
                        for &(a, z, v, _) in &start { sim::poke(a, z, v); }
                        s.start(Mode::Dfs);
                        s.log = Some(vec![]);
                        let range = (base.0.as_ptr() as usize, base.0.as_ptr() as usize + ARENA);
                        let got = RefCell::new((Ret::U, 0u128));
                        let body: Box<dyn FnMut()> = Box::new(|| for &(o, a, b) in &seq[..k] { got.borrow_mut().0 = cell.call(o, a, b, if o == Load { Ordering::Acquire } else { Ordering::Release }, Ordering::Relaxed); });
                        let last: Box<dyn FnMut()> = Box::new(|| { if let Ret::V(v) = cell.call(Load, 0, 0, Ordering::Acquire, Ordering::Relaxed) { got.borrow_mut().1 = v; } });
                        let ok = s.execute(range, &Budget { preempt: 0, stale: 0 }, vec![body], last);
                        let w = s.words();
                        let log = s.log.take().unwrap();
                        let probe = start.is_empty();
                        if probe && !w.is_empty() && k == seq.len() {
                            if !w.iter().any(|x| x.rmwed) { s.restore(); break; }
                            // now it is known which words there are: once more, from the chosen values
                            start = w.iter().map(|x| (x.addr, x.size, if x.rmwed { st[0] } else { st[1] }, x.rmwed)).map(|(a, z, v, t)| (a, z, if z == 4 { v & 0xffff_ffff } else { v }, t)).collect();
                            start.sort();
                            s.restore();
                            orig = start.iter().map(|x| (x.0, x.1, sim::peek(x.0, x.1))).collect();
                            k = 0;
                            continue;
                        }
                        if !probe {
                            hist.push(start.iter().map(|x| w.iter().find(|y| y.addr == x.0).map(|y| y.last).unwrap_or(x.2)).collect());
                            for e in log.iter().filter(|e| e.kind == 'U' && !e.cell) { if !marks.contains(&e.val) { marks.push(e.val); } }
                            if !ok { println!("{{\"q\":\"ver\",\"hang\":1,\"t\":\"{ty}\"}}"); break; }
                            let g = got.borrow();
                            (r, n) = (g.0, g.1);
                        }
                        s.restore();
                        if probe && k == seq.len() { break; }      // no words of its own at all
                        k += 1;
                    }
                    s.restore();
                    for &(a, z, v) in &orig { sim::poke(a, z, v); }
                    if start.is_empty() || hist.len() <= seq.len() { continue; }
                    let h: Vec<String> = hist.iter().map(|t| format!("[{}]", t.iter().map(|v| format!("[{},{},{},{}]", v & 0xffff, v >> 16 & 0xffff, v >> 32 & 0xffff, v >> 48)).collect::<Vec<_>>().join(","))).collect();
                    let mk: Vec<String> = marks.iter().map(|v| format!("[{},{},{},{}]", v & 0xffff, v >> 16 & 0xffff, v >> 32 & 0xffff, v >> 48)).collect();
                    let ops: Vec<String> = seq.iter().map(|o| format!("{{\"op\":\"{}\",\"a\":{},\"b\":{}}}", o.0.name(), crate::seq::arg_json(o.0, o.1, &info), crate::seq::limbs(o.2, &info))).collect();
                    let lk: Vec<String> = start.iter().map(|x| (x.3 as u8).to_string()).collect();
                    println!("{{\"q\":\"ver\",\"hang\":0,\"t\":\"{ty}\",\"w\":{},\"K\":\"{}\",\"z\":1,\"c\":{},\"n\":{},{},\"ops\":[{}],\"lock\":[{}],\"size\":[{}],\"hist\":[{}],\"marks\":[{}]}}",
                        info.bits, crate::seq::kind(&info), crate::seq::limbs(p(1), &info), crate::seq::limbs(n, &info), crate::seq::ret_json(r, &info), ops.join(","), lk.join(","), start.iter().map(|x| x.1.to_string()).collect::<Vec<_>>().join(","), h.join(","), mk.join(","));
                }
            }
        }
    }
    /// The first uses of a processor-dependent type, from several threads: everybody is told the same.
    /// Every execution starts with nothing detected yet.
    pub fn first(expect: &str, k: &P) {
        use Op::*;
        let base = arena();
        let s = sim::get();
        let range = (base.0.as_ptr() as usize, base.0.as_ptr() as usize + ARENA);
        let (q, l, t, a) = (None, Some(Load), Some(Store), Some(Add));
        let plans: Vec<Vec<Vec<Option<Op>>>> = vec![vec![vec![q], vec![q]], vec![vec![q, q], vec![q]], vec![vec![q], vec![q], vec![q]], vec![vec![q, q], vec![q, q]],
            vec![vec![t, q], vec![q]], vec![vec![l, q], vec![q]], vec![vec![a, q], vec![q]], vec![vec![a, q], vec![a, q]], vec![vec![l, q], vec![t, q]], vec![vec![q, a], vec![q, t]], vec![vec![q], vec![a], vec![q, l]]];
        for ty in ["u128", "i128"] {
            let cell = cell_at(ty, unsafe { base.0.as_mut_ptr().add(64) });
            for (n, plan) in plans.iter().enumerate() {
                let mut seen: BTreeMap<Vec<u8>, u64> = BTreeMap::new();
                let mut runs = 0;
                let mut internal = 0;
                s.start(Mode::Dfs);
                loop {
                    unsafe { put(cell, 0) };
                    let got = RefCell::new(vec![]);
                    let bodies: Vec<Box<dyn FnMut()>> = plan.iter().map(|ops| {
                        let got = &got;
                        let f: Box<dyn FnMut()> = Box::new(move || for o in ops { match o { None => { let x = cell.lock_free().0; got.borrow_mut().push(x as u8); } Some(o) => { cell.call(*o, 1, 0, if *o == Load { Ordering::Acquire } else { Ordering::Release }, Ordering::Relaxed); } } });
                        f
                    }).collect();
                    let last: Box<dyn FnMut()> = Box::new(|| { let x = cell.lock_free().0; got.borrow_mut().push(x as u8); });
                    let ok = s.execute(range, &Budget { preempt: k.preempt, stale: k.stale }, bodies, last);
                    internal = internal.max(s.words().len());
                    s.restore();
                    if !ok { got.borrow_mut().push(2); }
                    *seen.entry(got.into_inner()).or_default() += 1;
                    runs += 1;
                    if !s.next() || runs >= k.max { break; }
                }
                for v in seen.keys() { println!("{{\"q\":\"first\",\"t\":\"{ty}\",\"plan\":{n},\"said\":{v:?},\"expect\":\"{expect}\"}}"); }
                eprintln!("{ty} {n} runs {runs} words {internal}");
            }
        }
    }
    /// Guard bytes around every atomic must keep their values.
    fn guards(base: &Arena, spans: &[(usize, usize)]) -> bool {
        base.0.iter().enumerate().all(|(i, &b)| b == 0xA5 || spans.iter().any(|&(a, z)| i >= a && i < z))
    }
    pub fn run(progs: &[Prog], k: &P) {
        let base = arena();
        let s = sim::get();
        for p in progs {
            base.0.fill(0xA5);
            let cells: Vec<&'static dyn Cell> = p.locs.iter().map(|l| cell_at(&l.ty, unsafe { base.0.as_mut_ptr().add(l.off) })).collect();
            let infos: Vec<Info> = cells.iter().map(|c| c.info()).collect();
            let spans: Vec<(usize, usize)> = p.locs.iter().zip(&infos).map(|(l, i)| (l.off, l.off + (i.bits as usize + 7) / 8)).collect();
            let mut outs: BTreeMap<Outcome, u64> = BTreeMap::new();
            let mut n = 0u64;
            let mut full = true;
            let b = Budget { preempt: k.preempt, stale: k.stale };
            // Where the library keeps its versions: words it swaps but that are no cells.
            let mut starts: Vec<Vec<(usize, usize, u64)>> = vec![vec![]];
            s.skip_words.clear();
            if k.wrap {
                s.start(Mode::Dfs);
                one(p, base, &cells, &infos, &Budget { preempt: 0, stale: 0 });
                let w = s.words();
                s.restore();
                s.skip_words = w.iter().filter(|x| x.rmwed && x.size == 4).map(|x| x.addr).collect();
                for (lo, hi) in [(0u64.wrapping_sub(2), 0u64), (0u64.wrapping_sub(2), !0), (0u64.wrapping_sub(4), 0), (0xffff_fffe, 0), (0xffff_fffe_ffff_fffe, 0), (0, !0)] {
                    // The version proper is the word that is swapped; a companion word holds the high half.
                    let v: Vec<(usize, usize, u64)> = w.iter().map(|x| (x.addr, x.size, if x.rmwed { lo } else { hi })).collect();
                    let low = v.iter().map(|x| (x.0, x.1, if x.1 == 4 { x.2 & 0xffff_ffff } else { x.2 })).collect();
                    if !starts.contains(&low) { starts.push(low); }
                }
            }
            let orig = starts.iter().flatten().map(|&(a, sz, _)| (a, sz, sim::peek(a, sz))).collect::<Vec<_>>();
            for st in &starts {
                for &(a, sz, v) in st { sim::poke(a, sz, v); }
                s.start(Mode::Dfs);
                let mut m = 0u64;
                loop {
                    let o = one(p, base, &cells, &infos, &b);
                    s.restore();
                    *outs.entry(o).or_default() += 1;
                    m += 1;
                    if !s.next() { break; }
                    if m >= k.max { full = false; break; }
                }
                n += m;
                if !full || k.random > 0 {
                    s.start(Mode::Random(k.seed ^ crate::rng::hash(&[p.id.len() as u128, m as u128])));
                    for _ in 0..k.random {
                        let o = one(p, base, &cells, &infos, &Budget { preempt: 1000, stale: 1000 });
                        s.restore();
                        *outs.entry(o).or_default() += 1;
                        n += 1;
                    }
                }
                for &(a, sz, v) in &orig { sim::poke(a, sz, v); }
            }
            if !guards(base, &spans) { outs.insert((vec!["{\"k\":\"guard\",\"r\":[]}".into()], vec![]), 1); }
            emit(p, &outs, n, if full { "full" } else { "cut" });
        }
        eprintln!("{{\"accesses\":{}}}", s.accesses);
    }
}

// ------------------------------------------------------------------------------- real threads
/// The CPU's clock, on which threads agree when to start; 0 where there is none (or it is emulated).
#[inline]
fn clock() -> u64 {
    #[cfg(target_arch = "x86_64")]
    { unsafe { core::arch::x86_64::_rdtsc() } }
    #[cfg(target_arch = "x86")]
    { unsafe { core::arch::x86::_rdtsc() } }
    #[cfg(not(any(target_arch = "x86_64", target_arch = "x86")))]
    { 0 }
}
/// Runs each program on threads of the operating system, many instances per round. With `timed`, the
/// threads start each instance at the same tick of the CPU's clock, give or take a few.
pub fn stress(progs: &[Prog], rounds: u64, seed: u64, timed: bool) {
    use std::sync::atomic::{AtomicU64 as A, Ordering::*};
    use std::sync::Mutex;
    const K: usize = 32;
    let timed = timed && clock() != 0;
    for p in progs {
        let base = arena();
        base.0.fill(0xA5);
        let span = p.locs.iter().map(|l| l.off + 16).max().unwrap();
        let stride = (span + 63) / 64 * 64;
        let k = K.min(ARENA / stride);
        let inst: Vec<Vec<&'static dyn Cell>> = (0..k).map(|j| p.locs.iter().map(|l| cell_at(&l.ty, unsafe { base.0.as_mut_ptr().add(j * stride + l.off) })).collect()).collect();
        let infos: Vec<Info> = inst[0].iter().map(|c| c.info()).collect();
        let nt = p.ths.len();
        let (gen, done, at) = (A::new(0), A::new(0), A::new(0));
        let results: Vec<Mutex<Vec<Ret>>> = (0..nt).map(|_| Mutex::new(vec![])).collect();
        let mut outs: BTreeMap<(Vec<Ret>, Vec<u128>), u64> = BTreeMap::new();
        let spin = |c: &A, v: u64| { let mut n = 0u32; while c.load(Acquire) < v { n += 1; if n > 200 { std::thread::yield_now(); } else { std::hint::spin_loop(); } } };
        let tick = 700 + 250 * p.ths.iter().map(|t| t.len()).max().unwrap() as u64;
        std::thread::scope(|sc| {
            for t in 0..nt {
                let (gen, done, at, inst, infos, results, p) = (&gen, &done, &at, &inst, &infos, &results, &p);
                sc.spawn(move || {
                    let mut r = crate::rng::Rng::new(seed * 77 + t as u64);
                    let ops = &p.ths[t];
                    let ptrs: Vec<Vec<*mut u8>> = inst.iter().map(|c| c.iter().map(|c| c.raw_ptr()).collect()).collect();
                    let steps: Option<Vec<(Fast, usize, u128)>> = ops.iter().map(|o| match (o.kind, o.op) {
                        (1, _) if o.o == Ordering::SeqCst => Some((fence_sc as Fast, 0, 0)),
                        (0, Some(op)) => inst[0][o.loc].fast(op, o.o).map(|f| (f, o.loc, o.a)),
                        _ => None,
                    }).collect();
                    let steps = steps.unwrap_or_default();
                    let mut mine: Vec<Ret> = vec![Ret::U; inst.len() * ops.len()];
                    for round in 1..=rounds {
                        spin(gen, round);
                        let start = at.load(Relaxed);
                        if !timed { for _ in 0..r.below(40) { std::hint::spin_loop(); } }
                        for (j, cells) in inst.iter().enumerate() {
                            let due = start + j as u64 * tick + r.below(if round & 1 == 0 { 40 } else { 300 }) as u64;
                            if !timed && due & 3 == 0 { for _ in 0..due >> 2 & 15 { std::hint::spin_loop(); } }
                            let m = &mut mine[j * ops.len()..][..ops.len()];
                            let ret = |k: usize, v: u128| if matches!(ops[k].op, Some(Op::Load | Op::Swap)) { Ret::V(v) } else { Ret::U };
                            match &steps[..] {
                                // Call sites of their own, each with one target, and nothing in between.
                                &[(f, a, x), (g, b, y)] => {
                                    let (p, q) = (ptrs[j][a], ptrs[j][b]);
                                    while timed && clock() < due {}
                                    let u = f(p, x);
                                    let v = g(q, y);
                                    (m[0], m[1]) = (ret(0, u), ret(1, v));
                                }
                                &[(f, a, x), (g, b, y), (h, c, z)] => {
                                    let (p, q, s) = (ptrs[j][a], ptrs[j][b], ptrs[j][c]);
                                    while timed && clock() < due {}
                                    let u = f(p, x);
                                    let v = g(q, y);
                                    let w = h(s, z);
                                    (m[0], m[1], m[2]) = (ret(0, u), ret(1, v), ret(2, w));
                                }
                                _ => {
                                    while timed && clock() < due {}
                                    for (o, m) in ops.iter().zip(m) { *m = raw_op(cells, infos, o); }
                                }
                            }
                        }
                        std::mem::swap(&mut *results[t].lock().unwrap(), &mut mine);
                        mine.resize(inst.len() * ops.len(), Ret::U);
                        done.fetch_add(1, AcqRel);
                    }
                });
            }
            for round in 1..=rounds {
                for cells in &inst { for (c, l) in cells.iter().zip(&p.locs) { unsafe { put(*c, l.init) }; } }
                at.store(clock() + 3000, Relaxed);
                gen.store(round, Release);
                spin(&done, round * nt as u64);
                for j in 0..k {
                    let mut o = (vec![], vec![]);
                    for (r, ops) in results.iter().zip(&p.ths) { o.0.extend_from_slice(&r.lock().unwrap()[j * ops.len()..][..ops.len()]); }
                    for c in &inst[j] { o.1.push(match c.call(Op::Load, 0, 0, Ordering::Acquire, Ordering::Relaxed) { Ret::V(v) => v, _ => 0 }); }
                    *outs.entry(o).or_default() += 1;
                }
            }
        });
        let flat: Vec<&LOp> = p.ths.iter().flatten().collect();
        let mut shown: BTreeMap<Outcome, u64> = outs.into_iter().map(|((r, f), n)| ((r.into_iter().zip(&flat).map(|(x, o)| show_ret(&infos[o.loc], x)).collect(), f.into_iter().zip(&infos).map(|(v, i)| crate::seq::limbs(v, i)).collect()), n)).collect();
        let clean = (0..k).all(|j| {
            let (lo, hi) = (j * stride, (j + 1) * stride);
            base.0[lo..hi].iter().enumerate().all(|(x, &b)| b == 0xA5 || p.locs.iter().zip(&infos).any(|(l, i)| x >= l.off && x < l.off + (i.bits as usize + 7) / 8))
        });
        if !clean { shown.insert((vec!["{\"k\":\"guard\",\"r\":[]}".into()], vec![]), 1); }
        emit(p, &shown, rounds * k as u64, "threads");
    }
}
fn fence_sc(_: *mut u8, _: u128) -> u128 { portable_atomic::fence(Ordering::SeqCst); 0 }
/// Like run_op without the string building, so that threads stay close together.
#[inline]
pub fn raw_op(cells: &[&'static dyn Cell], infos: &[Info], op: &LOp) -> Ret {
    if op.kind == 1 { portable_atomic::fence(op.o); return Ret::U; }
    let (c, i) = (cells[op.loc], &infos[op.loc]);
    let Some(o) = op.op else { return Ret::Panic };
    let _ = i;
    c.call(o, op.a, op.b, op.o, op.f)
}
