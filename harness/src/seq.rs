// Sequential conformance: calls every operation of every type and prints each distinct outcome as one
// JSON line for spec/OpsTrace.tla.
use crate::for_each_type;
use crate::ops::*;
use crate::refmodel;
use crate::rng::{hash, Rng};
use std::collections::HashSet;
use std::io::Write;
use core::sync::atomic::Ordering;

pub fn limbs(v: u128, i: &Info) -> String {
    if i.bits <= 8 { return format!("[{}]", v & 0xff); }
    let n = i.bits / 16;
    let mut s = String::from("[");
    for k in 0..n { if k > 0 { s.push(','); } s += &((v >> (16 * k)) & 0xffff).to_string(); }
    s.push(']');
    s
}
pub fn kind(i: &Info) -> &'static str { match i.kind { Kind::UInt => "u", Kind::SInt => "s", Kind::Bool => "b", Kind::Ptr => "p", Kind::Float => "f" } }
pub fn ret_json(r: Ret, i: &Info) -> String {
    match r {
        Ret::V(v) => format!("\"k\":\"v\",\"r\":{}", limbs(v, i)),
        Ret::U => "\"k\":\"u\",\"r\":[]".into(),
        Ret::B(b) => format!("\"k\":\"b\",\"r\":[{}]", b as u8),
        Ret::Ok(v) => format!("\"k\":\"ok\",\"r\":{}", limbs(v, i)),
        Ret::Err(v) => format!("\"k\":\"err\",\"r\":{}", limbs(v, i)),
        Ret::Panic => "\"k\":\"panic\",\"r\":[]".into(),
        Ret::None => "\"k\":\"none\",\"r\":[]".into(),
        Ret::Hang => "\"k\":\"hang\",\"r\":[]".into(),
        Ret::Fault => "\"k\":\"fault\",\"r\":[]".into(),
    }
}
pub fn arg_json(op: Op, a: u128, i: &Info) -> String {
    if op.arity() == 0 { "[]".into() } else if op.is_bit() { format!("[{},{}]", a & 0xffff, (a >> 16) & 0xffff) } else { limbs(a, i) }
}

/// Boundary values of a width.
pub fn boundary(bits: u32, kind: Kind) -> Vec<u128> {
    let m: u128 = if bits >= 128 { !0 } else { (1u128 << bits) - 1 };
    if kind == Kind::Bool { return vec![0, 1]; }
    let h = bits / 2;
    let hm: u128 = (1u128 << h) - 1;
    let halves = [0, 1, hm >> 1, (hm >> 1) + 1, hm - 1, hm];
    let mut v: Vec<u128> = Vec::new();
    for &hi in &halves { for &lo in &halves { v.push(((hi << h) | lo) & m); } }
    v.extend([2, m - 2, 0x55555555555555555555555555555555 & m, 0xAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA & m, 0x0123456789abcdeffedcba9876543210 & m]);
    if kind == Kind::Float {
        let (e, mm) = match bits { 16 => (5, 10), 32 => (8, 23), 64 => (11, 52), _ => (15, 112) };
        let s = 1u128 << (bits - 1);
        let inf = ((1u128 << e) - 1) << mm;
        let one = ((1u128 << (e - 1)) - 1) << mm;
        for x in [0, 1, (1u128 << mm) - 1, 1u128 << mm, one, one + 1, one + (1u128 << mm), inf - 1, inf, inf | 1, inf | (1u128 << (mm - 1)), inf | (1u128 << (mm - 1)) | 5, one | (1u128 << (mm - 1))] { v.push(x); v.push(x | s); }
    }
    v.sort_unstable();
    v.dedup();
    v
}

pub struct Out { pub w: std::io::BufWriter<std::io::Stdout>, pub emitted: u64, pub executed: u64, pub flagged: u64 }

#[repr(C, align(64))]
struct Arena { b: [u8; 192] }

pub struct Cfg { pub ops: HashSet<&'static str>, pub seed: u64, pub random: usize, pub emit_per_op: u64, pub thin: u64, pub types: Option<HashSet<String>> }

pub fn run_type(mk: &dyn Fn(*mut u8, usize) -> &'static dyn Cell, size: usize, cfg: &Cfg, out: &mut Out) {
    let arena: &'static mut Arena = Box::leak(Box::new(Arena { b: [0; 192] }));
    let base = arena as *mut Arena as *mut u8;
    let info = mk(base, 64).info();
    if let Some(t) = &cfg.types { if !t.contains(info.name) { return; } }
    let mut rng = Rng::new(cfg.seed ^ hash(&[info.bits as u128, info.kind as u128]));
    let bnd = boundary(info.bits, info.kind);
    let m = info.mask();
    for &op in ALL_OPS {
        if !cfg.ops.contains(op.name()) { continue; }
        if !mk(base, 64).supports(op) { continue; }
        // inputs
        let mut cases: Vec<(u128, u128, u128)> = Vec::new();
        let mixed = |rng: &mut Rng| -> u128 {
            match rng.below(4) {
                0 => bnd[rng.below(bnd.len())],
                1 => rng.u128() & m,
                2 => (bnd[rng.below(bnd.len())] ^ (1u128 << rng.below(info.bits as usize))) & m,
                _ => { let s = rng.below(info.bits as usize) as u32; (rng.u128() & m) >> s }
            }
        };
        match op {
            Cas | CasW => {
                for &c in &bnd { cases.push((c, c, !c & m)); cases.push((c, c, c)); for &e in &bnd { cases.push((c, e, !c & m)); } }
                for _ in 0..8 {
                    let c = mixed(&mut rng);
                    let n = mixed(&mut rng);
                    cases.push((c, c, n));
                    for k in 0..info.bits { cases.push((c, c ^ (1u128 << k), n)); }
                }
                for _ in 0..cfg.random { let c = mixed(&mut rng); let e = if rng.below(2) == 0 { c } else { mixed(&mut rng) }; let n = mixed(&mut rng); cases.push((c, e, n)); }
            }
            Upd => {
                for &c in &bnd { for &a in &bnd { cases.push((c, a, !c & m)); } cases.push((c, 1 & m, c)); }
                for _ in 0..cfg.random { let c = mixed(&mut rng); let e = if rng.below(3) == 0 { c } else { mixed(&mut rng) }; let n = mixed(&mut rng); cases.push((c, n, e)); }
            }
            _ if op.is_bit() => {
                let mut bits: Vec<u128> = (0..(2 * info.bits.max(32)) as u128).collect();
                bits.extend([255, 256, 257, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0xffff_fffe, 0x1_0000, 0xffff]);
                for k in 0..info.bits as u128 { bits.push(0xffff_ff00 | k); }
                for &c in &[0, m, 0x55555555555555555555555555555555 & m, mixed(&mut rng), mixed(&mut rng)] { for &b in &bits { cases.push((c, b, 0)); } }
                for _ in 0..cfg.random { cases.push((mixed(&mut rng), rng.u64() as u32 as u128, 0)); }
            }
            _ if op.arity() == 0 => {
                for &c in &bnd { cases.push((c, 0, 0)); }
                for k in 0..info.bits { cases.push((1u128 << k, 0, 0)); cases.push((m ^ (1u128 << k), 0, 0)); cases.push(((1u128 << k) - 1, 0, 0)); }
                for _ in 0..cfg.random { cases.push((mixed(&mut rng), 0, 0)); }
            }
            _ => {
                for &c in &bnd { for &a in &bnd { cases.push((c, a, 0)); } }
                // carry/borrow chains and comparisons decided at each bit
                for k in 0..info.bits { let b = 1u128 << k; for c in [m, b, b - 1, m ^ b, 0] { for a in [b, b - 1, 1 & m, m ^ b] { cases.push((c & m, a & m, 0)); } } }
                for _ in 0..4 { let c = mixed(&mut rng); for k in 0..info.bits { cases.push((c, c ^ (1u128 << k), 0)); } cases.push((c, c, 0)); }
                for _ in 0..cfg.random { cases.push((mixed(&mut rng), mixed(&mut rng), 0)); }
            }
        }
        let total = cases.len() as u64;
        let keep = (total / cfg.emit_per_op.max(1)).max(1);
        let mut seen: HashSet<(u128, u128, u128)> = HashSet::new();
        let ords: Vec<(Ordering, Ordering)> = match op {
            Load => LD.iter().map(|&o| (o, o)).collect(),
            Store => ST.iter().map(|&o| (o, o)).collect(),
            Cas | CasW | Upd => RMW.iter().flat_map(|&o| LD.iter().map(move |&f| (o, f))).collect(),
            _ => RMW.iter().map(|&o| (o, o)).collect(),
        };
        for (idx, &(c, a, b)) in cases.iter().enumerate() {
            if !seen.insert((c, a, b)) { continue; }
            // (machines that are slow to reach make a part of the calls)
            if cfg.thin > 1 && total > 100 && hash(&[b, c, a, op as u128, info.bits as u128, cfg.seed as u128]) % cfg.thin != 0 { continue; }
            // position in memory varies; alignment is the type's size
            let off = 64 + (idx * size) % 64;
            let cell = mk(base, off);
            let orc = if info.kind == Kind::Float { float_oracle(info.name, op, c, a) } else { 0 };
            let exp = refmodel::expect(&info, op, c, a, b, orc);
            let fill = 0xA5u8 ^ (idx as u8).wrapping_mul(29);
            let mut distinct: Vec<(Ret, u128, bool)> = Vec::new();
            for &(o, f) in &ords {
                unsafe { core::ptr::write_bytes(base, fill, 192); core::ptr::copy_nonoverlapping(c.to_le_bytes().as_ptr(), base.add(off), size); }
                let mut g = true;
                let r = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| cell.call(op, a, b, o, f))) { Ok(r) => r, Err(_) => Ret::Panic };
                let n = match cell.call(Load, 0, 0, Ordering::SeqCst, Ordering::SeqCst) { Ret::V(v) => v, _ => { g = false; 0 } };
                let mut raw = [0u8; 16];
                unsafe {
                    core::ptr::copy_nonoverlapping(base.add(off), raw.as_mut_ptr(), size);
                    for k in 0..192 { if (k < off || k >= off + size) && *base.add(k) != fill { g = false; } }
                }
                if u128::from_le_bytes(raw) != n { g = false; }
                out.executed += 1;
                if !distinct.contains(&(r, n, g)) { distinct.push((r, n, g)); }
            }
            let bad = distinct.len() > 1 && op != CasW || distinct.iter().any(|&(r, n, g)| !g || !refmodel::same(&info, op, c, a, exp, (r, n)));
            let h = hash(&[c, a, b, op as u128, info.bits as u128, cfg.seed as u128]);
            if bad { out.flagged += 1; }
            if bad && out.flagged < 3000 || h % keep == 0 {
                for (r, n, g) in distinct {
                    let _ = writeln!(out.w, "{{\"q\":\"op\",\"t\":\"{}\",\"w\":{},\"K\":\"{}\",\"z\":{},\"op\":\"{}\",\"c\":{},\"a\":{},\"b\":{},\"o\":{},{},\"n\":{},\"g\":{}}}",
                        info.name, info.bits, kind(&info), info.size_of, op.name(), limbs(c, &info), arg_json(op, a, &info),
                        if op.arity() == 2 { limbs(b, &info) } else { "[]".into() }, if info.kind == Kind::Float { limbs(orc, &info) } else { "[]".into() },
                        ret_json(r, &info), limbs(n, &info), g as u8);
                    out.emitted += 1;
                }
            }
        }
    }
}

unsafe fn cast<T: Cell + 'static>(p: *mut u8) -> &'static dyn Cell { unsafe { &*(p as *const T) } }

pub fn run(cfg: &Cfg) -> Out {
    let mut out = Out { w: std::io::BufWriter::new(std::io::stdout()), emitted: 0, executed: 0, flagged: 0 };
    #[cfg(feature = "bare")]
    for c in crate::bare::EmuCell::all() {
        let made = std::cell::RefCell::new(std::collections::HashMap::new());
        run_type(&|base, off| *made.borrow_mut().entry(off).or_insert_with(|| crate::bare::EmuCell { base: base as usize, off: off as u8, ..c.clone() }.leak()) as &dyn Cell, c.vsize, cfg, &mut out);
    }
    #[cfg(not(feature = "bare"))]
    for_each_type!(T => run_type(&|base, off| unsafe { cast::<T>(base.add(off)) }, core::mem::size_of::<T>(), cfg, &mut out));
    let _ = out.w.flush();
    out
}
