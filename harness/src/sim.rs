//! Deterministic simulator for the library's own atomic accesses (simulation builds only).
//!
//! The library is compiled against shim/pa_core.rs, which hands every atomic access made by its
//! code (locks, versions, value chunks, CPU-feature caches, fences, spins) to the functions below.
//! Threads are coroutines; every access is a scheduling point; loads may return any value the
//! C++20/Rust memory model's view semantics allow.  Schedules and stale reads are enumerated
//! depth-first within a preemption/staleness budget and then sampled at random.
use core::sync::atomic::Ordering::{self, *};
use std::cell::UnsafeCell;

// ------------------------------------------------------------------------------- context switch
#[cfg(target_arch = "x86_64")]
std::arch::global_asm!(
    ".globl pa_ctx_switch", "pa_ctx_switch:",
    "push rbp", "push rbx", "push r12", "push r13", "push r14", "push r15",
    "mov [rdi], rsp", "mov rsp, rsi",
    "pop r15", "pop r14", "pop r13", "pop r12", "pop rbx", "pop rbp", "ret",
);
#[cfg(target_arch = "x86")]
std::arch::global_asm!(
    ".globl pa_ctx_switch", "pa_ctx_switch:",
    "mov eax, [esp+4]", "mov edx, [esp+8]",
    "push ebp", "push ebx", "push edi", "push esi",
    "mov [eax], esp", "mov esp, edx",
    "pop esi", "pop edi", "pop ebx", "pop ebp", "ret",
);
extern "C" { fn pa_ctx_switch(save: *mut usize, to: usize); }

const STACK: usize = 256 * 1024;
const MAXT: usize = 6;

// ------------------------------------------------------------------------------- memory model
#[derive(Clone, Default, Debug, PartialEq)]
pub struct View(Vec<u32>);
impl View {
    fn get(&self, l: usize) -> u32 { self.0.get(l).copied().unwrap_or(0) }
    fn set(&mut self, l: usize, ts: u32) { if self.0.len() <= l { self.0.resize(l + 1, 0); } self.0[l] = ts; }
    fn join(&mut self, o: &View) {
        if self.0.len() < o.0.len() { self.0.resize(o.0.len(), 0); }
        for (a, b) in self.0.iter_mut().zip(&o.0) { if *a < *b { *a = *b; } }
    }
    fn raise(&mut self, l: usize, ts: u32) { if self.get(l) < ts { self.set(l, ts); } }
}
#[derive(Clone)]
struct Msg { val: u64, view: View }
struct Loc { addr: usize, size: usize, msgs: Vec<Msg>, placed: u64, rmwed: bool, cell: bool }

#[derive(Clone, Copy, PartialEq, Debug)]
enum St { Ready, Yielded(usize), Done }
struct Th { cur: View, acq: View, rel: View, st: St, sp: usize, fresh: bool, mark: usize, steps: u32, run: u32 }
impl Th { fn new() -> Th { Th { cur: View::default(), acq: View::default(), rel: View::default(), st: St::Ready, sp: 0, fresh: false, mark: usize::MAX, steps: 0, run: 0 } } }

pub struct Budget { pub preempt: u32, pub stale: u32 }
pub struct Sim {
    active: bool,
    locs: Vec<Loc>,
    ths: Vec<Th>,
    n: usize,
    me: usize,
    sc: View,
    trace: Vec<(u32, u32)>,
    pos: usize,
    random: Option<crate::rng::Rng>,
    pre_left: u32,
    stale_left: u32,
    writes: usize,
    main_sp: usize,
    hang: bool,
    total_steps: u32,
    pub accesses: u64,
    cells: (usize, usize),
    stacks: Vec<Box<[u8]>>,
    /// Values to give library-internal words when they are first touched: (size, rmw word?, value).
    pub preset: Vec<(usize, u64)>,
    pub log: Option<Vec<Ev>>,
    /// Low words of versions, which `skip` may move on.
    pub skip_words: Vec<usize>,
}
#[derive(Clone, Debug)]
pub struct Ev { pub th: usize, pub kind: char, pub addr: usize, pub size: usize, pub val: u64, pub ord: Ordering, pub cell: bool }

struct Global(UnsafeCell<Option<Sim>>);
unsafe impl Sync for Global {}
static SIM: Global = Global(UnsafeCell::new(None));
#[allow(clippy::mut_from_ref)]
fn sim() -> &'static mut Sim { unsafe { (*SIM.0.get()).get_or_insert_with(Sim::new) } }
pub fn get() -> &'static mut Sim { sim() }

fn is_acq(o: Ordering) -> bool { matches!(o, Acquire | AcqRel | SeqCst) }
fn is_rel(o: Ordering) -> bool { matches!(o, Release | AcqRel | SeqCst) }
unsafe fn raw_read(a: usize, size: usize) -> u64 {
    match size { 1 => *(a as *const u8) as u64, 2 => *(a as *const u16) as u64, 4 => *(a as *const u32) as u64, _ => (a as *const u64).read_unaligned() }
}
unsafe fn raw_write(a: usize, size: usize, v: u64) {
    match size { 1 => *(a as *mut u8) = v as u8, 2 => *(a as *mut u16) = v as u16, 4 => *(a as *mut u32) = v as u32, _ => (a as *mut u64).write_unaligned(v) }
}

impl Sim {
    fn new() -> Sim {
        Sim {
            active: false, locs: vec![], ths: (0..MAXT).map(|_| Th::new()).collect(), n: 0, me: 0, sc: View::default(), trace: vec![], pos: 0, random: None,
            pre_left: 0, stale_left: 0, writes: 0, main_sp: 0, hang: false, total_steps: 0, accesses: 0, cells: (0, 0),
            stacks: (0..MAXT).map(|_| vec![0u8; STACK].into_boxed_slice()).collect(), preset: vec![], log: None, skip_words: vec![],
        }
    }
    pub fn choose(&mut self, n: u32) -> u32 {
        if n <= 1 { return 0; }
        if let Some(r) = &mut self.random { return (r.u64() % n as u64) as u32; }
        if self.pos == self.trace.len() { self.trace.push((0, n)); }
        let c = self.trace[self.pos];
        self.pos += 1;
        debug_assert_eq!(c.1, n);
        c.0.min(n - 1)
    }
    /// Moves to the next unexplored choice sequence; false when all are done.
    fn advance(&mut self) -> bool {
        self.trace.truncate(self.pos);
        while let Some((c, n)) = self.trace.pop() {
            if c + 1 < n { self.trace.push((c + 1, n)); return true; }
        }
        false
    }
    fn loc(&mut self, addr: usize, size: usize) -> usize {
        for i in 0..self.locs.len() {
            let l = &self.locs[i];
            if l.addr == addr && l.size == size { return i; }
        }
        // A different granularity for the same bytes: settle the old words first.
        let over: Vec<usize> = (0..self.locs.len()).filter(|&i| { let l = &self.locs[i]; l.addr < addr + size && addr < l.addr + l.size }).collect();
        for &i in &over {
            unsafe { let l = &self.locs[i]; raw_write(l.addr, l.size, l.msgs.last().unwrap().val); }
            self.locs[i].addr = usize::MAX - 64; // retired; keeps indices stable
            self.locs[i].size = 0;
        }
        let cell = addr >= self.cells.0 && addr < self.cells.1;
        let v = unsafe { raw_read(addr, size) };
        self.locs.push(Loc { addr, size, msgs: vec![Msg { val: v, view: View::default() }], placed: v, rmwed: false, cell });
        self.locs.len() - 1
    }
    /// Notices stores made behind the shim's back (plain writes).
    fn absorb(&mut self) {
        let me = self.me;
        for i in 0..self.locs.len() {
            let l = &mut self.locs[i];
            if l.size == 0 { continue; }
            let v = unsafe { raw_read(l.addr, l.size) };
            if v != l.placed {
                let ts = l.msgs.len() as u32;
                let mut view = self.ths[me].rel.clone();
                view.raise(i, ts);
                l.msgs.push(Msg { val: v, view });
                l.placed = v;
                self.ths[me].cur.raise(i, ts);
                self.writes += 1;
            }
        }
    }
    /// Makes plain memory show what the current thread is entitled to see at least.
    fn place(&mut self) {
        let th = &self.ths[self.me];
        for (i, l) in self.locs.iter_mut().enumerate() {
            if l.size == 0 { continue; }
            let v = l.msgs[th.cur.get(i) as usize].val;
            if v != l.placed { unsafe { raw_write(l.addr, l.size, v) }; l.placed = v; }
        }
    }
    fn settle(&mut self) {
        for l in self.locs.iter_mut() {
            if l.size == 0 { continue; }
            let v = l.msgs.last().unwrap().val;
            unsafe { raw_write(l.addr, l.size, v) };
            l.placed = v;
        }
    }
    fn runnable(&self, t: usize) -> bool {
        match self.ths[t].st { St::Ready => true, St::Yielded(w) => w < self.writes, St::Done => false }
    }
    /// Picks who runs next. `must_leave`: the current thread cannot continue.
    fn pick(&mut self) -> Option<usize> {
        let me = self.me;
        let mut c: Vec<usize> = vec![];
        let cur_ok = self.runnable(me);
        if cur_ok { c.push(me); }
        if !cur_ok || self.pre_left > 0 {
            for t in 0..self.n { if t != me && self.runnable(t) { c.push(t); } }
        }
        if c.is_empty() { return None; }
        let k = self.choose(c.len() as u32) as usize;
        if cur_ok && c[k] != me { self.pre_left -= 1; }
        Some(c[k])
    }
    fn switch_to(&mut self, t: usize) {
        let me = self.me;
        if let St::Yielded(_) = self.ths[t].st { self.ths[t].fresh = true; self.ths[t].st = St::Ready; }
        if t == me { return; }
        self.me = t;
        self.ths[t].run = 0;
        let to = self.ths[t].sp;
        let save: *mut usize = &mut self.ths[me].sp;
        unsafe { pa_ctx_switch(save, to) };
    }
    fn leave(&mut self) -> ! {
        let me = self.me;
        let save: *mut usize = &mut self.ths[me].sp;
        unsafe { pa_ctx_switch(save, self.main_sp) };
        unreachable!()
    }
    fn sched(&mut self) {
        self.accesses += 1;
        self.total_steps += 1;
        let me = self.me;
        self.ths[me].steps += 1;
        self.ths[me].run += 1;
        if self.total_steps > 40_000 { self.hang = true; self.leave(); }
        if self.ths[me].run > 400 { self.ths[me].run = 0; if let Some(t) = self.pick_yield() { self.switch_to(t); return; } }
        match self.pick() {
            Some(t) => self.switch_to(t),
            None => { self.hang = true; self.leave(); }
        }
    }
    fn spin(&mut self) {
        let me = self.me;
        // Spin hints in a row, without an access in between, count once.
        if self.ths[me].mark == usize::MAX { return; }
        self.absorb();
        self.total_steps += 1;
        if self.total_steps > 40_000 { self.hang = true; self.leave(); }
        self.ths[me].run = 0;
        // It may go on once something was written that it has not had the chance to see.
        self.ths[me].st = St::Yielded(self.ths[me].mark);
        self.ths[me].mark = usize::MAX;
        match self.pick_yield() {
            Some(t) => { self.switch_to(t); self.place(); }
            None => { self.hang = true; self.leave(); }
        }
    }
    /// After a spin the others go first (free of charge); the spinner itself only if nobody else can.
    fn pick_yield(&mut self) -> Option<usize> {
        let me = self.me;
        let c: Vec<usize> = (0..self.n).filter(|&t| t != me && self.runnable(t)).collect();
        if !c.is_empty() { let k = self.choose(c.len() as u32) as usize; return Some(c[k]); }
        if self.runnable(me) { Some(me) } else { None }
    }
    fn ev(&mut self, kind: char, l: usize, val: u64, ord: Ordering) {
        let (me, addr, size, cell) = (self.me, self.locs[l].addr, self.locs[l].size, self.locs[l].cell);
        if let Some(g) = &mut self.log { g.push(Ev { th: me, kind, addr, size, val, ord, cell }); }
    }
    fn read_ts(&mut self, l: usize, ord: Ordering, except: Option<u64>) -> u32 {
        let me = self.me;
        if ord == SeqCst { let s = self.sc.get(l); self.ths[me].cur.raise(l, s); }
        let lo = self.ths[me].cur.get(l);
        let hi = self.locs[l].msgs.len() as u32 - 1;
        self.ths[me].mark = self.ths[me].mark.min(self.writes);
        if self.stale_left == 0 || self.ths[me].fresh || lo == hi { self.ths[me].fresh = false; return hi; }
        let c: Vec<u32> = (lo..=hi).rev().filter(|&t| t == hi || except != Some(self.locs[l].msgs[t as usize].val)).collect();
        let k = self.choose(c.len() as u32) as usize;
        if k > 0 { self.stale_left -= 1; self.ths[me].mark = 0; }
        c[k]
    }
    fn apply_read(&mut self, l: usize, ts: u32, ord: Ordering) -> u64 {
        let me = self.me;
        let m = self.locs[l].msgs[ts as usize].clone();
        let th = &mut self.ths[me];
        th.cur.raise(l, ts);
        th.acq.raise(l, ts);
        th.acq.join(&m.view);
        if is_acq(ord) { th.cur.join(&m.view); }
        m.val
    }
    fn apply_write(&mut self, l: usize, v: u64, ord: Ordering, from: Option<u32>) {
        let me = self.me;
        let ts = self.locs[l].msgs.len() as u32;
        if ord == SeqCst { let s = self.sc.get(l); self.ths[me].cur.raise(l, s); }
        self.ths[me].cur.raise(l, ts);
        let mut view = if is_rel(ord) { self.ths[me].cur.clone() } else { self.ths[me].rel.clone() };
        if let Some(f) = from { let fv = self.locs[l].msgs[f as usize].view.clone(); view.join(&fv); }
        view.raise(l, ts);
        self.ths[me].acq.raise(l, ts);
        self.locs[l].msgs.push(Msg { val: v, view });
        if ord == SeqCst { self.sc.raise(l, ts); }
        self.writes += 1;
    }
    fn load(&mut self, addr: usize, size: usize, ord: Ordering) -> u64 {
        self.absorb();
        self.sched();
        let l = self.loc(addr, size);
        let ts = self.read_ts(l, ord, None);
        let v = self.apply_read(l, ts, ord);
        self.ev('R', l, v, ord);
        self.place();
        v
    }
    fn store(&mut self, addr: usize, size: usize, v: u64, ord: Ordering) {
        self.absorb();
        self.sched();
        let l = self.loc(addr, size);
        self.apply_write(l, v, ord, None);
        self.ev('W', l, v, ord);
        self.place();
    }
    fn rmw(&mut self, addr: usize, size: usize, f: &mut dyn FnMut(u64) -> Option<u64>, s: Ordering, fail: Ordering, weak: bool) -> Result<u64, u64> {
        self.absorb();
        self.sched();
        let l = self.loc(addr, size);
        self.locs[l].rmwed = true;
        let hi = self.locs[l].msgs.len() as u32 - 1;
        let latest = self.locs[l].msgs[hi as usize].val;
        self.ths[self.me].fresh = false;
        self.ths[self.me].mark = self.ths[self.me].mark.min(self.writes);
        let next = f(latest);
        let spurious = weak && next.is_some() && self.stale_left > 0 && { let k = self.choose(2); if k == 1 { self.stale_left -= 1; } k == 1 };
        let r = match next {
            Some(v) if !spurious => {
                if s == SeqCst { let x = self.sc.get(l); self.ths[self.me].cur.raise(l, x); }
                let old = self.apply_read(l, hi, s);
                self.apply_write(l, v, s, Some(hi));
                self.ev('U', l, v, s);
                Ok(old)
            }
            Some(_) => { let v = self.apply_read(l, hi, fail); self.ev('F', l, v, fail); Err(v) }
            None => {
                // A failed exchange is a load: it may see an older value, as long as that one fails too.
                let me = self.me;
                if fail == SeqCst { let x = self.sc.get(l); self.ths[me].cur.raise(l, x); }
                let lo = self.ths[me].cur.get(l);
                let mut c: Vec<u32> = vec![hi];
                if self.stale_left > 0 { for t in (lo..hi).rev() { if f(self.locs[l].msgs[t as usize].val).is_none() { c.push(t); } } }
                let k = self.choose(c.len() as u32) as usize;
                if k > 0 { self.stale_left -= 1; self.ths[me].mark = 0; }
                let v = self.apply_read(l, c[k], fail);
                self.ev('F', l, v, fail);
                Err(v)
            }
        };
        self.place();
        r
    }
    fn fence(&mut self, o: Ordering) {
        self.absorb();
        if o == SeqCst { self.sched(); } else { self.accesses += 1; }
        let me = self.me;
        let th = &mut self.ths[me];
        if is_acq(o) { let a = th.acq.clone(); th.cur.join(&a); }
        if o == SeqCst { th.cur.join(&self.sc); self.sc = th.cur.clone(); let c = th.cur.clone(); th.acq.join(&c); }
        if is_rel(o) { th.rel = th.cur.clone(); }
        if let Some(g) = &mut self.log { g.push(Ev { th: me, kind: 'N', addr: 0, size: 0, val: 0, ord: o, cell: false }); }
        self.place();
    }
}

/// Stands for very many completed writes by the current thread: the version's low word goes on to
/// `to` (never past its overflow), with everything a chain of lock acquisitions and releases orders.
pub fn skip(to: u64) {
    if !on() { return; }
    let s = sim();
    for a in s.skip_words.clone() {
        let _ = s.rmw(a, 4, &mut |v| if v & 1 == 0 && v < to { Some(to) } else { None }, AcqRel, Relaxed, false);
    }
}

// ------------------------------------------------------------------------------- hooks
fn on() -> bool { unsafe { matches!(&*SIM.0.get(), Some(s) if s.active) } }
static PASSIVE_SPINS: Global2 = Global2(UnsafeCell::new(0));
struct Global2(UnsafeCell<u64>);
unsafe impl Sync for Global2 {}

#[no_mangle]
fn pa_sim_load(addr: usize, size: usize, o: Ordering) -> u64 { if on() { sim().load(addr, size, o) } else { unsafe { raw_read(addr, size) } } }
#[no_mangle]
fn pa_sim_store(addr: usize, size: usize, v: u64, o: Ordering) { if on() { sim().store(addr, size, v, o) } else { unsafe { raw_write(addr, size, v) } } }
#[no_mangle]
fn pa_sim_rmw(addr: usize, size: usize, f: &mut dyn FnMut(u64) -> Option<u64>, s: Ordering, fail: Ordering, weak: bool) -> Result<u64, u64> {
    if on() { return sim().rmw(addr, size, f, s, fail, weak); }
    let v = unsafe { raw_read(addr, size) };
    match f(v) { Some(n) => { unsafe { raw_write(addr, size, n) }; Ok(v) } None => Err(v) }
}
#[no_mangle]
fn pa_sim_fence(o: Ordering) { if on() { sim().fence(o) } }
#[no_mangle]
fn pa_sim_spin() {
    if on() { sim().spin() } else {
        let n = unsafe { &mut *PASSIVE_SPINS.0.get() };
        *n += 1;
        if *n > 1_000_000 { eprintln!("an operation outside any concurrency spins forever"); std::process::exit(66); }
    }
}

// ------------------------------------------------------------------------------- running programs
type Body<'a> = Box<dyn FnMut() + 'a>;
static BODIES: BodyTable = BodyTable(UnsafeCell::new(Vec::new()));
struct BodyTable(UnsafeCell<Vec<Body<'static>>>);
unsafe impl Sync for BodyTable {}

extern "C" fn entry() {
    let me = sim().me;
    sim().place();
    let body: *mut Body<'static> = unsafe { &mut (&mut *BODIES.0.get())[me] };
    unsafe { (*body)() };
    let s = sim();
    s.absorb();
    s.ths[s.me].st = St::Done;
    match s.pick() {
        Some(t) => s.switch_to(t),
        None => { if (0..s.n).any(|t| s.ths[t].st != St::Done) { s.hang = true; } s.leave() }
    }
    unreachable!()
}
#[cfg(target_arch = "x86_64")]
fn prepare(stack: &mut [u8]) -> usize {
    let top = (stack.as_mut_ptr() as usize + stack.len()) & !15;
    let sp = top - 64;
    let w = sp as *mut usize;
    unsafe { for i in 0..6 { *w.add(i) = 0; } *w.add(6) = entry as *const () as usize; *w.add(7) = 0; }
    sp
}
#[cfg(target_arch = "x86")]
fn prepare(stack: &mut [u8]) -> usize {
    let top = (stack.as_mut_ptr() as usize + stack.len()) & !15;
    // after 4 pops and ret: esp = sp + 20 must be 12 mod 16 at function entry
    let sp = top - 64 - 8;
    let w = sp as *mut usize;
    unsafe { for i in 0..4 { *w.add(i) = 0; } *w.add(4) = entry as *const () as usize; *w.add(5) = 0; }
    sp
}

pub enum Mode { Dfs, Random(u64) }

/// Runs `bodies` as threads once under the current choice sequence. Returns false on a hang.
fn run_threads<'a>(bodies: Vec<Body<'a>>) -> bool {
    let s = sim();
    s.n = bodies.len();
    assert!(s.n <= MAXT);
    unsafe { *BODIES.0.get() = std::mem::transmute::<Vec<Body<'a>>, Vec<Body<'static>>>(bodies); }
    s.hang = false;
    s.active = true;
    for t in 0..s.n {
        s.ths[t].st = St::Ready;
        s.ths[t].sp = prepare(&mut s.stacks[t]);
        s.ths[t].fresh = false;
        s.ths[t].steps = 0;
        s.ths[t].run = 0;
    }
    let first = s.choose(s.n as u32) as usize;
    s.me = first;
    let to = s.ths[first].sp;
    let save: *mut usize = &mut s.main_sp;
    unsafe { pa_ctx_switch(save, to) };
    let s = sim();
    s.active = false;
    unsafe { (*BODIES.0.get()).clear(); }
    !s.hang
}

pub struct Word { pub addr: usize, pub size: usize, pub first: u64, pub last: u64, pub rmwed: bool }

impl Sim {
    /// Runs one execution: `bodies` concurrently, then `last` alone, having seen everything.
    /// Library-internal words are put back to what they were.
    pub fn execute<'a>(&mut self, cells: (usize, usize), b: &Budget, bodies: Vec<Body<'a>>, last: Body<'a>) -> bool {
        self.cells = cells;
        self.locs.clear();
        self.sc = View::default();
        self.pos = 0;
        self.pre_left = b.preempt;
        self.stale_left = b.stale;
        self.writes = 0;
        self.total_steps = 0;
        for t in self.ths.iter_mut() { *t = Th::new(); }
        let n = bodies.len();
        let mut ok = run_threads(bodies);
        let s = sim();
        if ok {
            let mut v = View::default();
            for t in 0..n { v.join(&s.ths[t].cur); v.join(&s.ths[t].acq); }
            s.settle();
            for (i, l) in s.locs.iter().enumerate() { v.raise(i, l.msgs.len() as u32 - 1); }
            s.ths[0] = Th::new();
            s.ths[0].cur = v.clone();
            s.ths[0].acq = v;
            s.me = 0;
            s.pre_left = 0;
            s.stale_left = 0;
            ok = run_threads(vec![last]);
        }
        sim().settle();
        ok
    }
    /// Internal words touched in the last execution.
    pub fn words(&self) -> Vec<Word> {
        self.locs.iter().filter(|l| !l.cell && l.size > 0).map(|l| Word { addr: l.addr, size: l.size, first: l.msgs[0].val, last: l.msgs.last().unwrap().val, rmwed: l.rmwed }).collect()
    }
    /// Undoes the last execution's changes to internal words.
    pub fn restore(&mut self) {
        for l in &self.locs { if !l.cell && l.size > 0 { unsafe { raw_write(l.addr, l.size, l.msgs[0].val) } } }
    }
    pub fn start(&mut self, m: Mode) {
        self.trace.clear();
        self.random = match m { Mode::Dfs => None, Mode::Random(s) => Some(crate::rng::Rng::new(s)) };
    }
    pub fn next(&mut self) -> bool { if self.random.is_some() { true } else { self.advance() } }
    pub fn thread(&self) -> usize { self.me }
}
pub fn peek(a: usize, size: usize) -> u64 { unsafe { raw_read(a, size) } }
pub fn poke(a: usize, size: usize, v: u64) { unsafe { raw_write(a, size, v) } }
