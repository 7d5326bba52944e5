// Interrupts: every call is interrupted at every point, by a handler that uses the same atomic.
use super::*;
use crate::misc::line;
use crate::refmodel;
use crate::rng::Rng;
use crate::seq::{arg_json, boundary, kind, limbs, ret_json};
use std::collections::HashSet;

type Do = (Op, u128, u128);

/// Two states of the processor in writing; which one it was does not matter where they are the same.
fn same(a: u64, b: u64) -> (String, String) { if a == b { ("".into(), "".into()) } else { (format!("{a:x}"), format!("{b:x}")) } }
fn effect(i: &Info, v: u128, s: &Do) -> u128 { refmodel::expect(i, s.0, v, s.1, s.2, 0).1 }

fn pat(i: &Info, k: u32) -> u128 { (0x5A17_C3E8_96B4_2DF1_0F69_A53C_81D2_7E4Bu128).rotate_left(k) & i.mask() }
/// Values before, and arguments, of a call.
fn cases(op: Op, info: &Info, bnd: &[u128], rng: &mut Rng) -> Vec<(u128, u128, u128)> {
    let (m, float) = (info.mask(), info.kind == Kind::Float);
    let pat = |k| pat(info, k);
    let mut cases: Vec<(u128, u128, u128)> = vec![];
    for n in 0..3 {
        let c = match n { 0 => pat(0), 1 => m, _ => bnd[rng.below(bnd.len())] };
        // carries, borrows and comparisons that cross the halves
        let a = match (op, n) { (Cas | CasW, 0) => c, (Cas | CasW, 1) => pat(8), (Upd, _) => pat(16), (_, 1) => 1 & m, _ => pat(24) };
        let b = if op == Upd && n == 2 { c } else { !c & m ^ pat(3) & 1 };
        // (no NaN: which one an addition gives is the processor's business)
        let num = |v: u128| { let e = match info.bits { 16 => 10, 32 => 23, 64 => 52, _ => 112 }; if float && (v & (m >> 1)) >> e == (m >> 1) >> e { v & !(1 << e) } else { v } };
        cases.push((num(c), num(a), b));
    }
    cases
}
/// What happens meanwhile.
fn scripts(n: usize, info: &Info, c: u128) -> Vec<Vec<Do>> {
    let (m, float) = (info.mask(), info.kind == Kind::Float);
    let pat = |k| pat(info, k);
    let d = pat(40);
    let mut scripts: Vec<Vec<Do>> = vec![vec![(Swap, d, 0)], vec![(Load, 0, 0), (Store, d, 0)], vec![(Cas, c, d)], vec![(Store, d, 0), (Store, c, 0)]];
    if !float && info.kind != Kind::Ptr && info.kind != Kind::Bool { scripts.push(vec![(Add, 1 & m, 0)]); scripts.push(vec![(NXor, d, 0), (Upd, pat(5), !m & m)]); }
    if info.kind == Kind::Bool { scripts.push(vec![(Xor, 1, 0), (Load, 0, 0)]); }
    if n > 0 { scripts.truncate(2); }
    scripts
}

pub fn run(seed: u64, pairs: usize, types: &str, fiq: bool) {
    let mut rng = Rng::new(seed ^ 0x1217);
    let mut seen: HashSet<String> = HashSet::new();
    let (mut calls, mut taken) = (0u64, 0u64);
    for cell in EmuCell::all() {
        let info = cell.info;
        if types != "all" && !types.split(',').any(|t| t == info.name) { continue; }
        let bnd = boundary(info.bits, info.kind);
        for &op in ALL_OPS {
            if !cell.supports(op) { continue; }
            let float = info.kind == Kind::Float;
            let cases = cases(op, &info, &bnd, &mut rng);
            for (n, &(c, a, b)) in cases.iter().enumerate() {
                let a = if op.is_bit() { [0, info.bits as u128 - 1, info.bits as u128 / 2][n] } else { a };
                let scripts = scripts(n, &info, c);
                let all_o: &[Ordering] = match op { Load => LD, Store => ST, _ => RMW };
                for (si, script) in scripts.iter().enumerate() {
                    let o = all_o[(n + si) % all_o.len()];
                    let f = LD[(n + si) % 3];
                    let mut one = |plan: Vec<(u64, bool)>, masked: bool, rng: &mut Rng| -> u64 {
                        let mut rnd = rng.u64();
                        if plan.iter().any(|p| p.1) { rnd = if masked { rnd | 0x40 } else { rnd & !0x40 }; } // (Arm: F)
                        cell.poke(c);
                        let enc = |s: &Do| cell.encode(opnum(s.0), s.1, s.2, ordnum(match s.0 { Load => Ordering::Acquire, Store => Ordering::Release, _ => Ordering::AcqRel }), 0);
                        let st0;
                        {
                            let g = guest().emu().expect("emulator");
                            g.cpu.set_status(masked, rnd);
                            st0 = g.cpu.status();
                            g.steps = 0;
                            g.taken = 0;
                            g.off = cell.off as u64;
                            g.size = cell.vsize as u64;
                            
                            g.plan = plan.iter().map(|&(at, fast)| Irq { at, fast, script: script.iter().map(enc).collect(), done: vec![], took: None, seen: vec![] }).collect();
                        }
                        let r = cell.raw(opnum(op), a, b, ordnum(o), ordnum(f), &mut |_| {});
                        let g = guest().emu().unwrap();
                        let st1 = g.cpu.status();
                        let mut plan = std::mem::take(&mut g.plan);
                        let steps = g.steps;
                        calls += 1;
                        taken += g.taken as u64;
                        let took = g.taken;
                        let at = plan.iter().filter(|p| p.at < steps).count();
                        let fin = cell.peek();
                        plan.sort_by_key(|p| p.took.unwrap_or(!0));
                        let mut v = c;
                        let orc = |v: u128| if float { float_oracle(info.name, op, v, a) } else { 0 };
                        let mut xs = vec![orc(v)];
                        let mut items = vec![];
                        for p in &plan {
                            for (k, (res, s0, s1)) in p.done.iter().enumerate() {
                                let s = &script[k];
                                let (s0, s1) = same(*s0, *s1);
                                v = effect(&info, v, s);
                                xs.push(orc(v));
                                items.push(format!("{{\"op\":\"{}\",\"a\":{},\"b\":{},{},\"s0\":\"{}\",\"s1\":\"{}\"}}", s.0.name(), arg_json(s.0, s.1, &info), if s.0.arity() == 2 { limbs(s.2, &info) } else { "[]".into() }, ret_json(cell.decode(res), &info), s0, s1));
                            }
                        }
                        let (s0, s1) = same(st0, st1);
                        let xs = xs.iter().map(|x| if float { limbs(*x, &info) } else { "[]".into() }).collect::<Vec<_>>().join(",");
                        let row = format!("{{\"q\":\"int\",\"t\":\"{}\",\"w\":{},\"K\":\"{}\",\"z\":{},\"op\":\"{}\",\"c\":{},\"a\":{},\"b\":{},\"x\":[{xs}],{},\"n\":{},\"masked\":{},\"asked\":{at},\"took\":{took},\"st0\":\"{s0}\",\"st1\":\"{s1}\",\"script\":[{}]}}",
                            info.name, info.bits, kind(&info), info.size_of, op.name(), limbs(c, &info), arg_json(op, a, &info), if op.arity() == 2 { limbs(b, &info) } else { "[]".into() },
                            ret_json(r, &info), limbs(fin, &info), masked as u8, items.join(","));
                        if seen.insert(row.clone()) { line(row); }
                        steps
                    };
                    let n = one(vec![], false, &mut rng);
                    one(vec![(0, false)], true, &mut rng);
                    if fiq { one(vec![(0, true)], true, &mut rng); }
                    for k in 0..n.min(3000) { one(vec![(k, false)], false, &mut rng); if fiq { one(vec![(k, true)], false, &mut rng); } }
                    for _ in 0..pairs {
                        let (i, j) = (rng.below(n as usize) as u64, rng.below(2 * n as usize) as u64);
                        one(vec![(i.min(j), fiq && i % 2 == 1), (i.max(j), fiq && j % 2 == 1)], false, &mut rng);
                    }
                }
            }
        }
    }
    eprintln!("{{\"executed\":{calls},\"interrupts\":{taken}}}");
}

/// Another processor changes the value while a call is under way, at every point of it. (Lock-free types only: the
/// others' value belongs to whom holds the lock.)
pub fn others(seed: u64, types: &str, ops: &str) {
    let mut rng = Rng::new(seed ^ 0x07e5);
    let mut seen: HashSet<String> = HashSet::new();
    let (mut calls, mut points) = (0u64, 0u64);
    let emu = guest().emu().is_some();
    let big = guest().big();
    for cell in EmuCell::all() {
        let info = cell.info;
        if cell.report[0] == 0 || types != "all" && !types.split(',').any(|t| t == info.name) { continue; }
        let bnd = boundary(info.bits, info.kind);
        let float = info.kind == Kind::Float;
        for &op in ALL_OPS {
            if !cell.supports(op) || op == Upd && !emu || ops != "all" && !ops.split(',').any(|x| x == op.name()) { continue; }
            for (n, &(c, a, b)) in cases(op, &info, &bnd, &mut rng).iter().enumerate() {
                let a = if op.is_bit() { [0, info.bits as u128 - 1, info.bits as u128 / 2][n] } else { a };
                let all_o: &[Ordering] = match op { Load => LD, Store => ST, _ => RMW };
                let mut list = scripts(n, &info, c);
                list.truncate(if emu { 6 } else if n == 0 { 2 } else { 1 });
                list.push(vec![(Load, 0, 0)]); // (and one that only looks)
                let (mut c, mut a) = (c, a);
                if matches!(op, Max | Min) && !float {
                    // the call leaves the value it finds (n: 0 and 1) or not, and with the other's value it is not so
                    let v = [0, 1, info.mask(), info.mask() >> 1, (info.mask() >> 1) + 1, pat(&info, 0), pat(&info, 24), !pat(&info, 24) & info.mask()];
                    loop {
                        let (x, y, z) = (v[rng.below(8)], v[rng.below(8)], v[rng.below(8)]);
                        let keeps = |t: u128| effect(&info, t, &(op, y, 0)) == t;
                        if x == y || y == z || keeps(x) != (n < 2) || keeps(z) == (n < 2) { continue; }
                        (c, a) = (x, y);
                        list = vec![vec![(Store, z, 0)]];
                        break;
                    }
                }
                for (si, script) in list.iter().enumerate() {
                    let o = all_o[(n + si + calls as usize) % all_o.len()];
                    let f = LD[(n + si) % 3];
                    let mut one = |at: Option<u64>, again: bool| -> u64 {
                        cell.poke(c);
                        let mut ctx = cell.encode(opnum(op), a, b, ordnum(o), ordnum(f));
                        let mut arena = [0u8; ARENA];
                        let off = cell.off as usize;
                        for (k, b) in arena.iter_mut().enumerate() { *b = 0x51 ^ (k as u8).wrapping_mul(29); }
                        let (lo, n) = (off - 16, cell.vsize + 32);
                        let mut around = arena[lo..lo + n].to_vec();
                        put(&mut arena[off..], c, cell.vsize, big);
                        let mut items = vec![];
                        let orc = |v: u128| if float { float_oracle(info.name, op, v, a) } else { 0 };
                        let mut xs = vec![orc(c)];
                        let mut took = 0;
                        let r = guest().with(&mut ctx, &mut arena, lo, n, at, again, &mut |mem| {
                            took += 1;
                            let mut v = get(&mem[16..], cell.vsize, big);
                            for s in script {
                                let (ret, new) = { let e = refmodel::expect(&info, s.0, v, s.1, s.2, 0); (e.0, e.1) };
                                items.push(format!("{{\"op\":\"{}\",\"a\":{},\"b\":{},{},\"s0\":\"\",\"s1\":\"\"}}", s.0.name(), arg_json(s.0, s.1, &info), if s.0.arity() == 2 { limbs(s.2, &info) } else { "[]".into() }, ret_json(ret, &info)));
                                v = new;
                                xs.push(orc(v));
                            }
                            // (and to what lies around it)
                            for k in 0..n { mem[k] = mem[k].wrapping_add(0x3b); around[k] = around[k].wrapping_add(0x3b); }
                            put(&mut mem[16..], v, cell.vsize, big);
                        });
                        let (ret, steps) = match r { Ok(n) => (cell.decode(&ctx), n), Err(e) => { eprintln!("{} {}: {e}", info.name, op.name()); (if e == "panic" { Ret::Panic } else if e.ends_with("hang") { Ret::Hang } else { Ret::Fault }, 0) } };
                        let fin = get(&arena[off..], cell.vsize, big);
                        let hex = |b: &[u8]| b[..16].iter().chain(&b[n - 16..]).map(|x| format!("{x:02x}")).collect::<String>();
                        let (st0, st1) = { let (x, y) = (hex(&around), hex(&arena[lo..lo + n])); if x == y { ("".into(), "".into()) } else { (x, y) } };
                        calls += 1;
                        points += took;
                        let xs = xs.iter().map(|x| if float { limbs(*x, &info) } else { "[]".into() }).collect::<Vec<_>>().join(",");
                        let row = format!("{{\"q\":\"int\",\"t\":\"{}\",\"w\":{},\"K\":\"{}\",\"z\":{},\"op\":\"{}\",\"c\":{},\"a\":{},\"b\":{},\"x\":[{xs}],{},\"n\":{},\"masked\":0,\"asked\":{took},\"took\":{took},\"st0\":\"{st0}\",\"st1\":\"{st1}\",\"script\":[{}]}}",
                            info.name, info.bits, kind(&info), info.size_of, op.name(), limbs(c, &info), arg_json(op, a, &info), if op.arity() == 2 { limbs(b, &info) } else { "[]".into() },
                            ret_json(ret, &info), limbs(fin, &info), items.join(","));
                        if seen.insert(row.clone()) { line(row); }
                        steps
                    };
                    let steps = one(None, false);
                    for k in 0..steps { one(Some(k), k % 2 == 0); }
                }
            }
        }
    }
    eprintln!("{{\"executed\":{calls},\"interrupts\":{points}}}");
}

/// What the types say about themselves: lock freedom (up to `lf` bits), layout, and the views of a value.
pub fn reports(lf: u32, have: &str) {
    let cells = EmuCell::all();
    for n in NAMES {
        let is = cells.iter().any(|c| c.info.name == n);
        if have != "" { line(format!("{{\"q\":\"str\",\"t\":\"{n}\",\"v\":\"exists\",\"s1\":\"{}\",\"s2\":\"{}\"}}", is, have.split(',').any(|h| h == n))); }
    }
    let mut rng = Rng::new(7);
    for c in cells {
        let i = c.info;
        let [now, always, size, align, vsize] = c.report;
        line(format!("{{\"q\":\"layout\",\"t\":\"{}\",\"w\":{},\"size\":{size},\"align\":{align},\"vsize\":{vsize}}}", i.name, i.bits));
        let mut nop = |_| {};
        let mut vals = boundary(i.bits, i.kind);
        for _ in 0..8 { vals.push(rng.u128() & i.mask()); }
        let row = |view: &str, want: u128, got: Ret| line(format!("{{\"q\":\"view\",\"t\":\"{}\",\"v\":\"{view}\",\"c\":{},\"n\":{}}}", i.name, limbs(want, &i), match got { Ret::V(v) => limbs(v, &i), r => format!("\"{r:?}\"") }));
        row("default", 0, c.raw(209, 0, 0, 0, 0, &mut nop));
        for v in vals {
            let other = !v & i.mask();
            for (n, view) in [(201, "new"), (202, "into_inner"), (208, "from")] { row(view, v, c.raw(n, v, 0, 0, 0, &mut nop)); }
            for (n, view) in [(203, "get_mut"), (205, "as_ptr"), (0, "load")] { c.poke(v); row(view, v, c.raw(n, 0, 0, 0, 0, &mut nop)); }
            for (n, view) in [(204, "get_mut"), (206, "as_ptr"), (207, "from_ptr"), (1, "store")] { c.poke(other); let r = c.raw(n, v, 0, 0, 0, &mut nop); row(view, v, if r == Ret::U { Ret::V(c.peek()) } else { r }); }
        }
        for &op in ALL_OPS {
            if !c.supports(op) { continue; }
            let out;
            if let Some(g) = guest().emu() { g.m.touched = Some(vec![]); g.outside = false; g.off = c.off as u64; g.size = c.vsize as u64; }
            c.poke(3 & i.mask());
            c.raw(opnum(op), 3 & i.mask(), 1, if op == Load { 0 } else { 2 * (op != Load) as u8 }, 0, &mut nop);
            if let Some(g) = guest().emu() { g.m.touched = None; out = g.outside; } else { out = now == 0; } // (elsewhere only what it says is known)
            if op == Load && !out && i.bits > lf { continue; } // (a lock-based atomic can be read without taking the lock)
            line(format!("{{\"q\":\"lf\",\"t\":\"{}\",\"w\":{},\"op\":\"{}\",\"now\":{now},\"always\":{always},\"const\":1,\"locks\":{},\"cs\":0,\"expect\":\"{}\"}}", i.name, i.bits, op.name(), out as u8, if i.bits <= lf { "yes" } else { "no" }));
        }
    }
}
