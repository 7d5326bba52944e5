// The library on other machines: a guest program (crate `bare`) runs in one of the emulators here, or as a
// process under qemu, and its atomics appear as `Cell`s like the host's own.
pub mod arm;
pub mod avr;
pub mod cpu;
pub mod intr;
pub mod msp430;
pub mod qemu;
pub mod riscv;
use crate::ops::*;
use core::sync::atomic::Ordering;
use cpu::*;
use std::collections::HashMap;
use std::sync::atomic::AtomicUsize;

pub const NAMES: [&str; 21] = ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "u128", "i128", "usize", "isize", "bool", "ptr0", "ptr1", "ptr3", "ptr8", "ptr24", "ptr4096", "f32", "f64"];
const POINTEE: [u128; 6] = [0, 1, 3, 8, 24, 4096];
pub const ARENA: usize = 192;

/// One call: the context the guest reads, and its arena. `Err` says that the machine stopped: "hang", "panic" or a fault.
pub trait Guest {
    fn call(&mut self, ctx: &mut [u8; 64], arena: &mut [u8; ARENA], inj: &mut dyn FnMut(&[u8; 64], &mut [u8; ARENA])) -> Result<(), String>;
    fn big(&self) -> bool { false }
    fn emu(&mut self) -> Option<&mut Machine> { None }
    /// The same with another processor at work: right before the instruction numbered `at` of the call (and once
    /// more when that instruction comes again, with `again`) `other` may change the `n` bytes at `lo` of the arena.
    /// Returns how many instructions were carried out, if `at` is none.
    fn with(&mut self, ctx: &mut [u8; 64], arena: &mut [u8; ARENA], lo: usize, n: usize, at: Option<u64>, again: bool, other: &mut dyn FnMut(&mut [u8])) -> Result<u64, String>;
}

// ------------------------------------------------------------------------------------ emulated machines
pub struct Machine { pub cpu: Box<dyn Cpu>, pub m: Mem, pub run: u64, cb: u64, panic: u64, pub ctx: u64, pub arena: u64, pub top: u64, pub steps: u64, pub limit: u64, pub plan: Vec<Irq>, pub taken: usize, pub other: Option<Other>, pub ended: Option<String>, pub off: u64, pub size: u64, pub outside: bool, pub log: Option<std::io::BufWriter<std::fs::File>> }
/// An interrupt that arrives before step `at` (or as soon as it may after that), and what its handler does.
pub struct Irq { pub at: u64, pub fast: bool, pub script: Vec<[u8; 64]>, pub done: Vec<([u8; 64], u64, u64)>, pub took: Option<u64>, pub seen: Vec<u8> }

/// What another processor does, at which step or (then) instruction.
pub struct Other { at: Option<u64>, pc: Option<u64>, again: bool, lo: usize, n: usize, f: *mut dyn FnMut(&mut [u8]) }

pub(crate) fn elf(path: &str) -> (Vec<(u64, Vec<u8>, u64)>, HashMap<String, u64>) {
    let d = std::fs::read(path).unwrap_or_else(|e| { eprintln!("{path}: {e}"); std::process::exit(2) });
    let w64 = d[4] == 2;
    let big = d[5] == 2;
    let ppc = big && d[19] == 21 || !big && d[18] == 21;
    let n = |o: usize, k: usize| -> u64 { let mut v = 0; for i in 0..k { v |= (d[if big { o + k - 1 - i } else { o + i }] as u64) << (8 * i); } v };
    let a = if w64 { 8 } else { 4 };
    let (phoff, shoff) = if w64 { (n(32, 8), n(40, 8)) } else { (n(28, 4), n(32, 4)) };
    let e = if w64 { 54 } else { 42 };
    let (phs, phn, shs, shn) = (n(e, 2), n(e + 2, 2), n(e + 4, 2), n(e + 6, 2));
    let mut segs = vec![];
    for i in 0..phn {
        let p = (phoff + i * phs) as usize;
        if n(p, 4) != 1 { continue; }
        let (off, va, fs, ms) = if w64 { (n(p + 8, 8), n(p + 16, 8), n(p + 32, 8), n(p + 40, 8)) } else { (n(p + 4, 4), n(p + 8, 4), n(p + 16, 4), n(p + 20, 4)) };
        segs.push((va, d[off as usize..(off + fs) as usize].to_vec(), ms));
    }
    let mut syms = HashMap::new();
    for i in 0..shn {
        let s = (shoff + i * shs) as usize;
        if n(s + 4, 4) != 2 { continue; }
        let (off, size, link) = if w64 { (n(s + 24, 8), n(s + 32, 8), n(s + 40, 4)) } else { (n(s + 16, 4), n(s + 20, 4), n(s + 24, 4)) };
        let st = (shoff + link * shs) as usize;
        let stroff = if w64 { n(st + 24, 8) } else { n(st + 16, 4) } as usize;
        let es = if w64 { 24 } else { 16 };
        for k in 0..size / es {
            let q = (off + k * es) as usize;
            let name = stroff + n(q, 4) as usize;
            let end = name + d[name..].iter().position(|&b| b == 0).unwrap();
            let v = if w64 { n(q + 8, 8) } else { n(q + 4, a) };
            // (a function of PowerPC is entered behind the instructions that set up its table of contents)
            let v = if ppc && d[q + 4] & 15 == 2 { v + [0, 0, 4, 8, 16, 32, 64, 0][d[q + 5] as usize >> 5] } else { v };
            syms.insert(String::from_utf8_lossy(&d[name..end]).into_owned(), v);
        }
    }
    (segs, syms)
}

impl Machine {
    /// `kind`: what the processor is, e.g. "rv32+s+aamo".
    pub fn load(path: &str, kind: &str) -> Machine {
        let (segs, syms) = elf(path);
        let mut it = kind.split('+');
        let base = it.next().unwrap();
        let has: Vec<&str> = it.collect();
        let h = |s: &str| has.contains(&s);
        let end = segs.iter().map(|s| s.0 + s.2).max().unwrap();
        let small = matches!(base, "msp430" | "avr");
        let size = if base == "avr" { 0x20000 } else if small { 0x10000 } else { (end as usize + 0x4ffff) & !0xffff };
        let mut b = vec![0u8; size];
        for (va, data, _) in &segs { b[*va as usize..*va as usize + data.len()].copy_from_slice(data); }
        let code = if base == "avr" { b.clone() } else { vec![] };
        let top = if small { 0xff00 } else { size as u64 - 64 };
        if base != "avr" && end > top - 0x800 { eprintln!("{path}: no room for a stack"); std::process::exit(2); }
        let cpu: Box<dyn Cpu> = match base {
            "rv32" | "rv64" => { let mut c = riscv::Riscv::new(base == "rv32"); c.smode = h("s"); c.m = h("m"); c.lrsc = h("lrsc"); c.aamo = h("aamo"); c.abha = h("abha"); c.acas = h("acas"); Box::new(c) }
            "armv4t" => Box::new(arm::Arm::new(false, false)),
            "armv5te" => Box::new(arm::Arm::new(true, false)),
            "armv6m" => Box::new(arm::Arm::new(false, true)),
            "msp430" => Box::new(msp430::Msp430::new()),
            "avr" => { let mut c = avr::Avr::new(); c.rmw = h("rmw"); c.xmega = h("xmega"); Box::new(c) }
            _ => panic!("machine {kind}"),
        };
        let s = |n: &str| syms.get(n).copied().unwrap_or_else(|| { eprintln!("{path}: no symbol {n}"); std::process::exit(2) });
        let thumb = !1u64;
        let strip = |v: u64| if matches!(base, "armv4t" | "armv5te" | "armv6m") { v & thumb } else { v };
        Machine { cpu, m: Mem { b, code, touched: None }, run: s("pa_run"), cb: strip(s("pa_cb")), panic: strip(s("pa_panic")), ctx: s("PA_CTX"), arena: s("PA_ARENA"), top, steps: 0, limit: 2_000_000, plan: vec![], taken: 0, other: None, ended: None, off: 64, size: 16, outside: false, log: None }
    }
    pub fn ctx_mut(&mut self) -> &mut [u8] { let c = self.ctx as usize; &mut self.m.b[c..c + 64] }
    /// Calls pa_run with what is in PA_CTX, at stack pointer `sp`.
    pub fn go(&mut self, sp: u64, depth: u32, inj: &mut dyn FnMut(&[u8; 64], &mut [u8; ARENA])) -> Result<(), String> {
        self.cpu.set_sp(sp);
        self.cpu.call(&mut self.m, self.run);
        let exit = self.cpu.exit();
        let mut mine = 0u64;
        loop {
            if depth == 0 {
                let mut k = 0;
                while k < self.plan.len() {
                    if self.plan[k].took.is_none() && self.steps >= self.plan[k].at && self.cpu.irq(self.plan[k].fast) { self.interrupt(k)?; }
                    k += 1;
                }
                let pc = self.cpu.pc();
                if let Some(o) = &mut self.other {
                    if o.at == Some(self.steps) || o.at.is_none() && o.pc == Some(pc) {
                        let a = self.arena as usize + o.lo;
                        unsafe { (*o.f)(&mut self.m.b[a..a + o.n]) };
                        self.cpu.snoop(a as u64, o.n as u64);
                        (o.at, o.pc) = (None, if o.again && o.pc.is_none() { Some(pc) } else { None });
                    }
                }
                self.steps += 1;
            }
            let pc = self.cpu.pc();
            if pc == exit { return Ok(()); }
            if pc == self.panic { return Err("panic".into()); }
            if pc == self.cb {
                let mut c = [0u8; 64];
                c.copy_from_slice(self.ctx_mut());
                let a = self.arena as usize;
                let mut ar = [0u8; ARENA];
                ar.copy_from_slice(&self.m.b[a..a + ARENA]);
                nested(self as *mut Machine, &mut || inj(&c, &mut ar));
                self.m.b[a..a + ARENA].copy_from_slice(&ar);
            }
            if let Some(f) = &mut self.log {
                use std::io::Write;
                let _ = write!(f, "Trace 0: 0 [0/{pc:x}/]\n");
                for (k, v) in self.cpu.regs().iter().enumerate() { let _ = write!(f, "X{k}={v:x} "); }
                let _ = writeln!(f);
            }
            mine += 1;
            if mine > self.limit { return Err("hang".into()); }
            self.cpu.step(&mut self.m)?;
            if let Some(t) = &mut self.m.touched {
                for (a, n, w) in t.drain(..) {
                    let (a, n) = (a as u64, n as u64);
                    let at = self.arena + self.off;
                    let own = a >= at & !3 && a + n <= at + self.size.max(4) + 3 & !3 || // (the word that holds it)
                        a >= self.ctx && a + n <= self.ctx + 64 || a >= self.top - 0x800;
                    if w && !own { self.outside = true; }
                }
            }
        }
    }
    fn interrupt(&mut self, k: usize) -> Result<(), String> {
        let mut saved = self.cpu.boxed();
        let fast = self.plan[k].fast;
        self.plan[k].took = Some(self.steps);
        let a = (self.arena + self.off) as usize;
        self.plan[k].seen = self.m.b[a..a + self.size as usize].to_vec();
        self.taken += 1;
        self.cpu.enter(fast);
        let mut keep = [0u8; 64];
        keep.copy_from_slice(self.ctx_mut());
        let script = std::mem::take(&mut self.plan[k].script);
        let mut out = Ok(());
        for s in &script {
            self.ctx_mut().copy_from_slice(s);
            let before = self.cpu.status();
            let sp = (saved.sp() - 256) & !15;
            if let Err(e) = self.go(sp, 1, &mut |_, _| {}) { out = Err(format!("in the handler: {e}")); break; }
            let mut r = [0u8; 64];
            r.copy_from_slice(self.ctx_mut());
            self.plan[k].done.push((r, before, self.cpu.status()));
        }
        self.plan[k].script = script;
        self.ctx_mut().copy_from_slice(&keep);
        saved.snoop(0, !0);
        self.cpu = saved;
        out
    }
}
impl Guest for Machine {
    fn call(&mut self, ctx: &mut [u8; 64], arena: &mut [u8; ARENA], inj: &mut dyn FnMut(&[u8; 64], &mut [u8; ARENA])) -> Result<(), String> {
        let a = self.arena as usize;
        let (oldctx, oldarena): (Vec<u8>, Vec<u8>) = (self.ctx_mut().to_vec(), self.m.b[a..a + ARENA].to_vec());
        // a call from a closure: below the calls under way
        static DEPTH: AtomicUsize = AtomicUsize::new(0);
        let d = DEPTH.fetch_add(1, Ordering::SeqCst);
        let saved = self.cpu.boxed();
        let sp = if d == 0 { self.top & !15 } else { (self.cpu.sp() - 256) & !15 };
        self.ctx_mut().copy_from_slice(ctx);
        self.m.b[a..a + ARENA].copy_from_slice(arena);
        let r = self.go(sp, if d == 0 { 0 } else { 1 }, inj);
        ctx.copy_from_slice(self.ctx_mut());
        arena.copy_from_slice(&self.m.b[a..a + ARENA]);
        DEPTH.fetch_sub(1, Ordering::SeqCst);
        if d > 0 { self.ctx_mut().copy_from_slice(&oldctx); self.m.b[a..a + ARENA].copy_from_slice(&oldarena); self.cpu = saved; self.cpu.snoop(0, !0); }
        r
    }
    fn emu(&mut self) -> Option<&mut Machine> { Some(self) }
    fn with(&mut self, ctx: &mut [u8; 64], arena: &mut [u8; ARENA], lo: usize, n: usize, at: Option<u64>, again: bool, other: &mut dyn FnMut(&mut [u8])) -> Result<u64, String> {
        self.steps = 0;
        self.off = ctx[5] as u64;
        self.plan = vec![];
        let f: *mut (dyn FnMut(&mut [u8]) + '_) = other;
        self.other = at.map(|k| Other { at: Some(k), pc: None, again, lo, n, f: unsafe { core::mem::transmute::<*mut (dyn FnMut(&mut [u8]) + '_), *mut (dyn FnMut(&mut [u8]) + 'static)>(f) } });
        let r = self.call(ctx, arena, &mut |_, _| {});
        self.other = None;
        r.map(|_| self.steps)
    }
}

// ------------------------------------------------------------------------------------ as cells
struct G(std::cell::UnsafeCell<Option<Box<dyn Guest>>>);
unsafe impl Sync for G {}
static GUEST: G = G(std::cell::UnsafeCell::new(None));
struct Cur(std::cell::UnsafeCell<Option<*mut dyn Guest>>);
unsafe impl Sync for Cur {}
static CURRENT: Cur = Cur(std::cell::UnsafeCell::new(None));
/// Runs `f`, which may call the guest `g` that is in the middle of a call.
pub fn nested(g: *mut dyn Guest, f: &mut dyn FnMut()) {
    struct Back(Option<*mut dyn Guest>);
    impl Drop for Back { fn drop(&mut self) { unsafe { *CURRENT.0.get() = self.0; } } }
    let _b = unsafe { Back((*CURRENT.0.get()).replace(g)) };
    f();
}
/// Is the fence refused?
pub fn fence(name: &str, o: Ordering) -> bool {
    let mut c = [0u8; 64];
    c[0] = 100;
    c[1] = (name != "fence") as u8;
    c[2] = ordnum(o);
    guest().call(&mut c, &mut [0; ARENA], &mut |_, _| {}).is_err()
}
pub fn open(path: &str, machine: &str, debug: bool) {
    if path.is_empty() { return; }
    set_guest(if machine.starts_with("qemu") { Box::new(qemu::Child::start(path, machine, debug)) } else { Box::new(Machine::load(path, machine)) });
}
/// Makes the calls read from the standard input, as the programs under Linux do (crate `bare`), and logs every
/// instruction and the registers before it.
pub fn drive(log: &str) {
    use std::io::{Read, Write};
    let m = guest().emu().expect("an emulated machine");
    m.log = Some(std::io::BufWriter::new(std::fs::File::create(log).unwrap()));
    let mut b = [0u8; 257];
    while std::io::stdin().read_exact(&mut b).is_ok() {
        let (mut c, mut a) = ([0u8; 64], [0u8; ARENA]);
        c.copy_from_slice(&b[1..65]);
        a.copy_from_slice(&b[65..]);
        let r = guest().call(&mut c, &mut a, &mut |_, _| {});
        b[0] = if r.is_ok() { b'R' } else { b'P' };
        b[1..65].copy_from_slice(&c);
        b[65..].copy_from_slice(&a);
        let mut o = std::io::stdout();
        if o.write_all(&b).and_then(|_| o.flush()).is_err() { break; }
    }
    let _ = guest().emu().unwrap().log.take();
}
/// One thread at a time uses the guest (misc::timed waits for its thread); calls from closures nest.
pub fn guest() -> &'static mut dyn Guest { unsafe { if let Some(g) = *CURRENT.0.get() { return &mut *g; } (*GUEST.0.get()).as_mut().expect("guest").as_mut() } }
pub fn set_guest(g: Box<dyn Guest>) { unsafe { *GUEST.0.get() = Some(g); } }
static WHY: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

#[derive(Clone)]
pub struct EmuCell { pub base: usize, pub off: u8, pub ty: u8, pub info: Info, pub vsize: usize, pub report: [u8; 5] }

pub fn put(d: &mut [u8], v: u128, n: usize, big: bool) { for k in 0..n { d[if big { n - 1 - k } else { k }] = (v >> (8 * k)) as u8; } }
pub fn get(d: &[u8], n: usize, big: bool) -> u128 { let mut v = 0u128; for k in 0..n { v |= (d[if big { n - 1 - k } else { k }] as u128) << (8 * k); } v }
pub fn opnum(op: Op) -> u8 { ALL_OPS.iter().position(|&o| o == op).unwrap() as u8 }
pub fn ordnum(o: Ordering) -> u8 { match o { Ordering::Relaxed => 0, Ordering::Acquire => 1, Ordering::Release => 2, Ordering::AcqRel => 3, _ => 4 } }

impl EmuCell {
    /// The type numbered `ty` where the guest has it.
    pub fn new(ty: u8) -> Option<EmuCell> {
        let mut c = [0u8; 64];
        let mut ar = [0u8; ARENA];
        c[0] = ty;
        c[1] = 200;
        c[5] = 64;
        if let Err(e) = guest().call(&mut c, &mut ar, &mut |_, _| {}) { eprintln!("the guest does not answer: {e}"); std::process::exit(2); }
        if c[4] == 0 { return None; }
        let r = &c[48..53];
        let vsize = r[4] as usize;
        let kind = match ty { 12 => Kind::Bool, 13..=18 => Kind::Ptr, 19 | 20 => Kind::Float, 11 => Kind::SInt, 10 => Kind::UInt, t if t % 2 == 1 => Kind::SInt, _ => Kind::UInt };
        let info = Info { name: NAMES[ty as usize], bits: if kind == Kind::Bool { 1 } else { 8 * vsize as u32 }, kind, size_of: if kind == Kind::Ptr { POINTEE[ty as usize - 13] } else { 1 } };
        #[repr(C, align(64))]
        struct Own([u8; ARENA]);
        let base = Box::leak(Box::new(Own([0; ARENA]))).0.as_mut_ptr() as usize;
        Some(EmuCell { base, off: 64, ty, info, vsize, report: [r[0], r[1], r[2], r[3], r[4]] })
    }
    pub fn all() -> Vec<EmuCell> { (0..21).filter_map(EmuCell::new).collect() }
    pub fn leak(&self) -> &'static EmuCell { Box::leak(Box::new(self.clone())) }
    pub fn encode(&self, op: u8, a: u128, b: u128, o: u8, f: u8) -> [u8; 64] {
        let big = guest().big();
        let mut c = [0u8; 64];
        c[0] = self.ty;
        c[1] = op;
        c[2] = o;
        c[3] = f;
        c[5] = self.off;
        let an = if (22..25).contains(&op) { 4 } else { self.vsize };
        put(&mut c[16..32], a, an, big);
        put(&mut c[32..48], b, self.vsize, big);
        c
    }
    pub fn decode(&self, c: &[u8; 64]) -> Ret {
        let v = get(&c[48..64], self.vsize, guest().big());
        match c[4] { 1 => Ret::V(v), 2 => Ret::U, 3 => Ret::B(c[48] != 0), 4 => Ret::Ok(v), 5 => Ret::Err(v), _ => Ret::None }
    }
    fn host(&self) -> &'static mut [u8; ARENA] { unsafe { &mut *(self.base as *mut [u8; ARENA]) } }
    pub fn raw(&self, op: u8, a: u128, b: u128, o: u8, f: u8, inj: Inject) -> Ret {
        let mut c = self.encode(op, a, b, o, f);
        let big = guest().big();
        let host = self.host();
        let mut ar = *host;
        let (n, at) = (self.vsize, self.off as usize);
        let hp = self.base;
        // the host's copy has the value's bytes in the host's order
        let swap = |ar: &mut [u8; ARENA]| if big { ar[at..at + n].reverse() };
        swap(&mut ar);
        let r = guest().call(&mut c, &mut ar, &mut |c, ar| {
            let h = unsafe { &mut *(hp as *mut [u8; ARENA]) };
            *h = *ar;
            swap(h);
            inj(get(&c[48..64], n, big));
            *ar = *h;
            swap(ar);
        });
        swap(&mut ar);
        *host = ar;
        match r { Ok(()) => self.decode(&c), Err(e) if e == "panic" => Ret::Panic, Err(e) if e.ends_with("hang") => Ret::Hang, Err(e) => { let mut w = WHY.lock().unwrap(); if w.len() < 500 { eprintln!("{e}"); w.push_str(&e); } Ret::Fault } }
    }
    pub fn peek(&self) -> u128 { get(&self.host()[self.off as usize..], self.vsize, false) }
    pub fn poke(&self, v: u128) { put(&mut self.host()[self.off as usize..], v, self.vsize, false); }
}
unsafe impl Send for EmuCell {}
unsafe impl Sync for EmuCell {}
impl Cell for EmuCell {
    fn info(&self) -> Info { self.info }
    fn supports(&self, op: Op) -> bool {
        match self.info.kind {
            Kind::Bool => matches!(op, Load | Store | Swap | Cas | CasW | And | Nand | Or | Xor | Not | NAnd | NOr | NXor | NNot | Upd),
            Kind::Ptr => matches!(op, Load | Store | Swap | Cas | CasW | And | Or | Xor | BitSet | BitClear | BitToggle | Upd | PAdd | PSub | BAdd | BSub),
            Kind::Float => matches!(op, Load | Store | Swap | Cas | CasW | Add | Sub | Max | Min | Neg | Abs | Upd),
            _ => !matches!(op, Abs | PAdd | PSub | BAdd | BSub),
        }
    }
    fn call_inj(&self, op: Op, a: u128, b: u128, o: Ordering, f: Ordering, inj: Inject) -> Ret { self.raw(opnum(op), a, b, ordnum(o), ordnum(f), inj) }
    fn fast(&self, _op: Op, _o: Ordering) -> Option<Fast> { None }
    fn raw_ptr(&self) -> *mut u8 { (self.base + self.off as usize) as *mut u8 }
    fn lock_free(&self) -> (bool, bool) { (self.report[0] == 1, self.report[1] == 1) }
    fn get_mut_read(&mut self) -> u128 { match self.raw(203, 0, 0, 0, 0, &mut |_| {}) { Ret::V(v) => v, _ => 0 } }
    fn get_mut_write(&mut self, v: u128) { self.raw(204, v, 0, 0, 0, &mut |_| {}); }
}
